#!/bin/bash
# dev helper: planttest.sh ID...: confirm planted bugs in a scratch copy: demo passes without, builds, stable tests pass and demo fails with
S=/tmp/plant; mkdir -p $S
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; fi
sed "s#/repo/target#$S/repo/target#; " /opt/vp/env.sh > $S/env.sh
sed "s#\. /opt/vp/env.sh#. $S/env.sh#; s#/repo\b#$S/repo#g" /opt/vp/test.sh > $S/test.sh
git -C $S/repo checkout -q -- . ; git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -q FETCH_HEAD
for id in "$@"; do
  d=/verif/seeded/$id; rm -rf $S/demo; mkdir $S/demo; cp -r $d/. $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json
  git -C $S/repo checkout -q -- .
  (cd $S/repo && timeout 300 bash $S/demo/demo.sh > $S/demo0.log 2>&1); r0=$?
  git -C $S/repo apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
  (cd $S/repo && timeout 300 bash $S/demo/demo.sh > $S/demo1.log 2>&1); r1=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash $S/test.sh $S/out.json > $S/test.log 2>&1
    t=$(python3 - $S/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return x[k]
    return x
bp=set(names(b)); op=set(o.get('passed') or o.get('pass') or [])
m=bp-op
print('tests-ok' if not m else f'FAILED {sorted(m)[:4]}')
P
)
  fi
  git -C $S/repo checkout -q -- .
  echo "$id demo-clean=$r0 demo-bug=$r1 $t"
done
