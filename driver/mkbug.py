#!/usr/bin/env python3
"""dev helper: mkbug.py ID PROPERTY FILE DEPS <<< python dict with old,new,needs,breaks,demo (repl list allowed)"""
import sys, os, json, subprocess, tempfile, shutil
spec = eval(sys.stdin.read())
V = "/verif"
for s in (spec if isinstance(spec, list) else [spec]):
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    edits = s["edits"]
    diff = ""
    files = {}
    for f, old, new in edits:
        t = files.get(f) or open(f"/repo/{f}").read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        files[f] = t.replace(old, new)
    for f, t in files.items():
        with tempfile.NamedTemporaryFile("w", delete=False) as tf:
            tf.write(t)
        r = subprocess.run(["git", "-C", "/repo", "diff", "--no-index", "--", f, tf.name], capture_output=True, text=True, cwd="/repo").stdout
        lines = r.splitlines(keepends=True)
        out = []
        for l in lines:
            if l.startswith("diff --git"): l = f"diff --git a/{f} b/{f}\n"
            elif l.startswith("--- "): l = f"--- a/{f}\n"
            elif l.startswith("+++ "): l = f"+++ b/{f}\n"
            elif l.startswith("index ") or l.startswith("old mode") or l.startswith("new mode"): continue
            out.append(l)
        diff += "".join(out)
        os.unlink(tf.name)
    open(f"{d}/patch.diff", "w").write(diff)
    deps = s.get("deps", "")
    t = open(f"{V}/driver/demo_template/demo.sh").read()
    area = s["area"]
    order = ["doe", "gp", "moe", "ego"]
    dl = [f'egobox-{c} = {{ path = "$R/crates/{c}"' + (', features = ["persistent", "serializable"]' if c in ("gp","moe") and False else "") + " }" for c in order[1:order.index(area) + 1]]
    if area == "ego":
        dl += ['argmin = { version = "0.11.0", features = ["serde1", "ctrlc"] }', 'serde = { version = "1", features = ["derive"] }', 'typetag = "0.2"']
    t = t.replace("@DEPS@", "\n".join(dl))
    open(f"{d}/demo.sh", "w").write(t)
    open(f"{d}/main.rs", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
