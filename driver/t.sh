#!/bin/bash
# dev helper: t.sh <harness-crate> <name>... : run harnesses and validate witnesses natively
export EGOBOX_LOG=off RAYON_NUM_THREADS=1
C=$1; shift
for n in "$@"; do timeout 900 /verif/build/target-sym/debug/$C --run $n --out /tmp/o_$n.json --budget ${B:-300} > /dev/null; python3 - $C $n <<'PY'
import json,sys,subprocess
c,n=sys.argv[1:]
j=json.load(open(f"/tmp/o_{n}.json"))
s=j["stats"]
print(n, "wall %.1f"%j["wall_s"], "paths",s["paths"],"done",s["completed"],"pruned",s["pruned"],"q",s["queries"],"unk",s["unknown"],"checks",s["checks"],"nf",s["checks_by_normal_form"],"solver",s["checks_proved_by_solver"],"conc",s["checks_concrete"],"TIMEOUT" if j["timed_out"] else "", "UNKNOWN:" +str(j["unknown"][:4]) if j["unknown"] else "")
for w in j["failures"]+j["witnesses"]:
    json.dump(w,open(f"/tmp/w_{n}.json","w"))
    try: r=subprocess.run([f"/verif/build/target-nat/debug/{c}",f"/tmp/w_{n}.json"],capture_output=True,text=True,timeout=20)
    except subprocess.TimeoutExpired: print("  HANG", w["tag"]); continue
    try: o=json.loads(r.stdout)
    except Exception: print("  bad nat", r.stdout[-300:], r.stderr[-300:]); continue
    import struct
    f=lambda b: struct.unpack("d",struct.pack("Q",b))[0]
    if w["kind"]=="witness":
        bad=[]
        for (a,b),(c2,d) in zip(w["observed"],o["observed"]):
            v=f(b)
            if d is None: d=float("nan")
            if not (abs(v-d)<=1e-6*(1+abs(v)) or (v!=v and d!=d) or v==d): bad.append((a,v,d))
        if o["failed"] or o["panic"] or o["diverged"] or bad or len(w["observed"])!=len(o["observed"]): print("  WITNESS MISMATCH",o["failed"][:3],o["panic"],o["diverged"],bad[:3],len(w["observed"]),len(o["observed"]))
    else:
        inp=[ (list(e.items())[0][0], list(e.items())[0][1]) for e in w["events"]]
        ii=[(v[0],f(v[1])) if k=="Input" else (v[0],v[1]) if k=="Choose" else (k,f(v) if k=="DrawF" else v) for k,v in inp]
        print("  FAIL",w["kind"],w["tag"],"| native:",o["failed"][:3],o["panic"],o["diverged"] or "", str(ii)[:300])
PY
done
