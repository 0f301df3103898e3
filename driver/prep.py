"""Regenerates the symbolic and native workspaces from /repo's current sources and builds them."""
import os, re, shutil, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CRATES = ["doe", "gp", "moe", "ego"]
NEED = {"doe": ["doe"], "gp": ["doe", "gp"], "moe": ["doe", "gp", "moe"], "ego": ["doe", "gp", "moe", "ego"]}


def env():
    e = dict(os.environ)
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", f". {p} >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode(errors="replace").split("=", 1)
                e[k] = v
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    e["RAYON_NUM_THREADS"] = "1"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("CARGO_TARGET_DIR", None)
    for k in list(e):
        if k.startswith("EGOR_") or k.startswith("EGOBOX"):
            e.pop(k)
    e["EGOBOX_LOG"] = "off"
    return e


def write(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == txt:
        return
    with open(path, "w") as f:
        f.write(txt)


def sections(txt):
    cur, out = None, []
    for line in txt.splitlines():
        m = re.match(r"^\s*(\[\[?.*?\]\]?)\s*(#.*)?$", line)
        if m and not line.startswith(" "):
            cur = [m.group(1), []]
            out.append(cur)
        elif cur is not None:
            cur[1].append(line)
        else:
            cur = ["", [line]]
            out.append(cur)
    return out


def manifest(crate):
    txt = open(f"{REPO}/crates/{crate}/Cargo.toml").read()
    out = []
    for h, body in sections(txt):
        if h.startswith("[dev-dependencies") or h in ("[[bench]]", "[[test]]", "[[example]]", "[[bin]]"):
            continue
        if h == "[package]":
            body = [b for b in body if not re.match(r"\s*(readme|build)\b", b)]
        if h == "[dependencies]":
            body = body + ['symrs = { workspace = true }']
        out.append((h, body))
    return "\n".join((h + "\n" if h else "") + "\n".join(b) for h, b in out) + "\n"


def root_manifest(mode, members):
    txt = open(f"{REPO}/Cargo.toml").read()
    out = [f"[workspace]\nmembers = {members!r}\nresolver = \"2\"\n".replace("'", '"')]
    for h, body in sections(txt):
        if h == "[workspace.package]":
            out.append(h + "\n" + "\n".join(b for b in body if not b.startswith("readme")))
        if h == "[workspace.dependencies]":
            feats = '["sym", "linfa", "argmin"]' if mode == "sym" else '["nat"]'
            out.append(h + "\n" + "\n".join(body) + f'\nsymrs = {{ path = "{VERIF}/symrs", features = {feats} }}\n')
    # debug assertions and overflow checks stay on, as in the test profile
    out.append("""
[profile.dev]
opt-level = 0
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
panic = "unwind"
[profile.dev.package.symrs]
opt-level = 2
[profile.dev.package.num-bigint]
opt-level = 2
[profile.dev.package.num-rational]
opt-level = 2
[profile.dev.build-override]
opt-level = 0
""")
    if mode == "sym" and any(m.endswith("/ego") for m in members):
        for c in CRATES:
            out.append(f"[profile.dev.package.egobox-{c}]\nopt-level = 1\n")
    return "\n".join(out) + "\n"


def harness_manifest(name, area):
    deps = "\n".join(
        f'egobox-{c} = {{ path = "../../crates/{c}"' + (', features = ["persistent"]' if c in ("gp", "moe") else
        (', features = ["serializable"]' if c == "doe" and area == "ego" else "")) + " }" for c in NEED[area])
    extra = ""
    if area == "ego":
        extra = 'argmin = { version = "0.11.0", features = ["serde1", "ctrlc"] }\n'
    if area in ("moe", "ego"):
        extra += 'linfa-clustering = { version = "0.8", default-features = false }\ntypetag = "0.2"\n'
    return f"""[package]
name = "{name}"
version = "0.1.0"
edition = "2024"

[dependencies]
symrs = {{ workspace = true }}
{deps}
ndarray.workspace = true
ndarray-rand.workspace = true
rand_xoshiro.workspace = true
linfa.workspace = true
num-traits.workspace = true
serde = {{ version = "1", features = ["derive", "rc"] }}
serde_json = "1"
{extra}
"""


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def symgen_bin():
    e = env()
    e["CARGO_TARGET_DIR"] = f"{BUILD}/target-symgen"
    if not os.path.exists(f"{VERIF}/symgen/Cargo.lock"):
        pass
    r = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", f"{VERIF}/symgen/Cargo.toml"], env=e)
    if r.returncode:
        raise RuntimeError("symgen build failed:\n" + r.stderr[-3000:])
    return f"{BUILD}/target-symgen/debug/symgen"


def prepare(mode, harness, area):
    """generate workspace build/<mode>-<harness>; return its directory"""
    ws = f"{BUILD}/{mode}"
    gen = symgen_bin()
    need = NEED[area]
    for c in need:
        dst = f"{ws}/crates/{c}"
        r = run([gen, mode, f"egobox_{c}", f"{REPO}/crates/{c}/src", f"{dst}/src"])
        if r.returncode:
            raise RuntimeError(f"source preparation of {c} failed: {r.stderr}")
        # drop files that no longer exist in the repository
        for root, _, files in os.walk(f"{dst}/src"):
            for f in files:
                rel = os.path.relpath(os.path.join(root, f), f"{dst}/src")
                if not os.path.exists(f"{REPO}/crates/{c}/src/{rel}"):
                    os.remove(os.path.join(root, f))
        write(f"{dst}/Cargo.toml", manifest(c))
    hd = f"{ws}/h/{harness}"
    r = run([gen, mode, harness, f"{VERIF}/harness/{harness}", f"{hd}/src"])
    if r.returncode:
        raise RuntimeError(f"harness preparation failed: {r.stderr}")
    write(f"{hd}/Cargo.toml", harness_manifest(harness, area))
    members = [f"crates/{c}" for c in need] + [f"h/{harness}"]
    write(f"{ws}/Cargo.toml", root_manifest(mode, members))
    shutil.copyfile(f"{REPO}/Cargo.lock", f"{ws}/Cargo.lock")
    return ws


def build(mode, harness, area, jobs=None):
    ws = prepare(mode, harness, area)
    e = env()
    e["CARGO_TARGET_DIR"] = f"{BUILD}/target-{mode}"
    cmd = ["cargo", "build", "--offline", "--manifest-path", f"{ws}/Cargo.toml", "-p", harness]
    if jobs:
        cmd += ["-j", str(jobs)]
    r = run(cmd, env=e)
    if r.returncode:
        errs = r.stderr
        raise RuntimeError(f"{mode} build of {harness} failed:\n" + errs[-6000:])
    return f"{BUILD}/target-{mode}/debug/{harness}"


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2], sys.argv[3]))
    except RuntimeError as ex:
        print(ex)
        sys.exit(2)
