#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current tree.

exit 0: held on everything explored; exit 1: VIOLATION line printed, reproduced natively;
exit 2: no verdict (build failure, solver timeout, counterexample that does not reproduce)."""
import concurrent.futures, glob, json, os, struct, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep
from props import PROPS

VERIF = prep.VERIF
BUILD = prep.BUILD


def f64(b):
    return struct.unpack("d", struct.pack("Q", b))[0]


def show(events):
    out = []
    for e in events:
        (k, v), = e.items()
        if k == "Input":
            out.append(f"{v[0]}={f64(v[1])!r}")
        elif k == "Choose":
            out.append(f"{v[0]}:={v[1]}")
        elif k == "DrawF":
            out.append(f"u={f64(v):.6g}")
        else:
            out.append(f"{k}={v}")
    return out


def native(binp, rec, path, env, timeout=60):
    with open(path, "w") as f:
        json.dump(rec, f)
    try:
        r = subprocess.run([binp, path], capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return {"hang": True, "failed": [], "panic": None, "diverged": None, "exhausted": False, "observed": []}
    try:
        return json.loads(r.stdout)
    except Exception:
        return {"crash": (r.stderr or r.stdout)[-400:], "failed": [], "panic": f"process died: {r.stderr[-200:]}",
                "diverged": None, "exhausted": False, "observed": []}


def reproduces(w, o):
    if o.get("hang"):
        return True  # 60 s on a case that takes milliseconds: the loop does not end
    if w["tag"] in o["failed"]:
        return True
    if o["panic"] and (w["kind"] == "panic" or not o["exhausted"]):
        return True
    return False


def mismatch(w, o):
    if o.get("hang") or o["panic"] or o["failed"] or o["diverged"]:
        return f"failed={o['failed'][:3]} panic={o['panic']} diverged={o['diverged']} hang={o.get('hang', False)}"
    if len(w["observed"]) != len(o["observed"]):
        return f"{len(w['observed'])} observations expected, {len(o['observed'])} made"
    for (a, b), (_, d) in zip(w["observed"], o["observed"]):
        v = f64(b)
        d = float("nan") if d is None else d
        if v == d or (v != v and d != d):
            continue
        if not abs(v - d) <= 1e-5 * (1 + abs(v)):
            return f"{a}: model {v!r}, native {d!r}"
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[pid]
    t0 = time.time()
    ev_path = f"{VERIF}/evidence/{pid}.json"
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    rdir = f"{BUILD}/replays"
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{pid}_*.json"):
        os.remove(f)
    if os.path.exists(ev_path):
        os.remove(ev_path)

    groups = {}
    for hid in p["harnesses"] + (p.get("thorough", []) if tier == "thorough" else []):
        crate, name = hid.split(":")
        groups.setdefault(crate, []).append(name)
    bins = {}
    area = {"h_doe": "doe", "h_gp": "gp", "h_moe": "moe", "h_ego": "ego"}
    prep.symgen_bin()
    for crate in groups:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            fs = {m: ex.submit(prep.build, m, crate, area[crate], 4) for m in ("sym", "nat")}
            for m, f in fs.items():
                bins[crate, m] = f.result()
    t_build = time.time() - t0

    known = [k for k in json.load(open(f"{VERIF}/known_findings.json"))["findings"] if k["property"] == pid]
    env = prep.env()
    env["VERIF_TIER"] = tier
    budget = p.get("budget", {}).get(tier, 500 if tier == "quick" else 3000)

    def one(crate, name):
        out = f"{rdir}/{pid}_out_{crate}_{name}.json"
        cmd = [bins[crate, "sym"], "--run", name, "--budget", str(budget), "--witnesses",
               "4" if tier == "quick" else "12", "--out", out]
        for k in known:
            if k["harness"] == f"{crate}:{name}":
                cmd += ["--known", k["tag"]]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=budget + 120, env=env)
        except subprocess.TimeoutExpired:
            return {"error": "symbolic run did not stop in time"}
        if r.returncode or not os.path.exists(out):
            return {"error": f"symbolic run ended with {r.returncode}: {r.stderr[-400:]}"}
        return json.load(open(out))

    tasks = [(c, n) for c, ns in groups.items() for n in ns]
    res = {}
    with concurrent.futures.ThreadPoolExecutor(p.get("workers", 5)) as ex:
        fut = {ex.submit(one, c, n): (c, n) for c, n in tasks}
        for f in concurrent.futures.as_completed(fut):
            res[fut[f]] = f.result()

    problems, violations, findings, samples, per = [], [], {}, [], []
    funcs, tags, solv = {}, {}, {}
    tot = {}
    validated = 0
    for (c, n) in tasks:
        j = res[c, n]
        hid = f"{c}:{n}"
        if "error" in j:
            problems.append(f"{hid}: {j['error']}")
            continue
        s = j["stats"]
        for k, v in s.items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_nodes" else tot.get(k, 0) + v
        for k, v in j["funcs"].items():
            funcs[k] = funcs.get(k, 0) + v
        for k, v in j["tags"].items():
            tags[f"{hid}: {k}"] = v
        for k, v in j["by_solver"].items():
            solv[k] = solv.get(k, 0) + v
        bad = 0
        for i, w in enumerate(j["witnesses"]):
            o = native(bins[c, "nat"], w, f"{rdir}/{pid}_w_{c}_{n}_{i}.json", env)
            m = mismatch(w, o)
            if m is None:
                validated += 1
                if len(samples) < 12 and i in (0, 3):
                    samples.append({"harness": hid, "input": show(w["events"])[:40],
                                    "observed": [f"{a}={f64(b):.9g}" for a, b in w["observed"][:12]]})
            else:
                bad += 1
                print(f"note: {hid}: model of a completed path and native run differ: {m}")
        unreproduced = []
        new = 0
        for i, w in enumerate(j["failures"]):
            path = f"{rdir}/{pid}_{c}_{n}_{i}.json"
            w["property"] = pid
            o = native(bins[c, "nat"], w, path, env)
            k = next((k for k in known if k["harness"] == hid and w["tag"].startswith(k["tag"])), None)
            if not reproduces(w, o):
                unreproduced.append((w["tag"], str(o)[:300]))
                continue
            if k is not None:
                findings[k["what"]] = path
                continue
            new += 1
            violations.append((hid, w, path, o))
        confirmed = {w["tag"] for h2, w, _, _ in violations if h2 == hid}
        for t, o in unreproduced:
            if t not in confirmed and not any(k["harness"] == hid and t.startswith(k["tag"]) for k in known):
                problems.append(f"{hid}: counterexample to '{t}' does not reproduce natively: {o}")
        for u in j["unknown"]:
            problems.append(f"{hid}: {u}")
        if j["timed_out"] and not new:
            problems.append(f"{hid}: exploration not finished within {budget} s ({s['paths']} paths)")
        if s["completed"] == 0 and not j["failures"]:
            problems.append(f"{hid}: no path reaches the end of the harness")
        if bad and bad == len(j["witnesses"]) and not j["failures"]:
            problems.append(f"{hid}: no replayed path agrees with the symbolic model")
        per.append({"harness": hid, "paths": s["paths"], "completed": s["completed"], "queries": s["queries"],
                    "checks": s["checks"], "solver_s": round(s["solver_ms"] / 1e3, 2), "wall_s": round(j["wall_s"], 2),
                    "native_replays": len(j["witnesses"]), "native_mismatches": bad})

    if not validated and not violations and not findings:
        problems.append("no completed path could be replayed natively")
    repo_funcs = sorted(k for k in funcs if k.startswith("egobox_"))
    cov = {
        "states": tot.get("paths", 0),
        "transitions": tot.get("branches", 0),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "functions_encoded": repo_funcs,
        "assertions_decided": tot.get("checks", 0),
        "assertions_by_solver": tot.get("checks_proved_by_solver", 0),
        "assertions_constant_on_path": tot.get("checks_concrete", 0),
        "solver_queries": tot.get("queries", 0),
        "solver_sat": tot.get("sat", 0),
        "solver_unsat": tot.get("unsat", 0),
        "solver_unknown": tot.get("unknown", 0),
        "solver_s": round(tot.get("solver_ms", 0) / 1e3, 2),
        "answers_by_solver": solv,
        "assertions_by_tag": tags,
        "harnesses": per,
        "bounds": p["bounds"],
        "outside": p.get("outside", ""),
        "build_s": round(t_build, 1),
        "inconclusive": problems,
        "known_findings": sorted(findings),
    }
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
               "assumptions": p.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 1),
               "violations": len(violations)}, open(ev_path, "w"), indent=1)
    for m in problems:
        print("inconclusive:", m)
    for w in sorted(findings):
        print(f"KNOWN-FINDING: property={pid} {w}")
    print(f"{pid} {tier}: {tot.get('paths', 0)} paths, {tot.get('checks', 0)} assertions, {tot.get('queries', 0)} queries, "
          f"{validated} native replays agree, {time.time() - t0:.0f} s")
    seen = set()
    for hid, w, path, o in violations:
        if (hid, w["tag"]) in seen:
            continue
        seen.add((hid, w["tag"]))
        print(f"  {hid}: {w['tag']}: native run: {(o['panic'] or 'assertion failed') if not o.get('hang') else 'does not end'}; "
              f"input {' '.join(show(w['events'])[:24])}")
        print(f"VIOLATION property={pid} replay={path}")
    sys.exit(1 if violations else 2 if problems else 0)


COMMON = [
    "floating-point operations are read as exact real arithmetic (elementary functions through sound bounds refined on demand); "
    "assertions carry a relative tolerance and rounding itself is outside the claim unless the bounds say otherwise",
    "random draws, inner numerical optimizers and file output are replaced by stand-ins (arbitrary draws, arbitrary point of the box or failure)",
    "symgen (source-level retyping of f64 to a symbolic scalar), the symrs engine, z3 and cvc5 are trusted; completed paths are replayed natively with plain f64 to validate them",
]

if __name__ == "__main__":
    try:
        main()
    except RuntimeError as ex:
        print(f"inconclusive: {ex}")
        sys.exit(2)
