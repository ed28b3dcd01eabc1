#!/bin/bash
# plant.sh ID [check]: confirm a planted bug: demo passes clean, tests pass and demo fails with it, and what the check says.
# Development helper; no check uses it.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
git diff --quiet || { echo "dirty repo"; exit 9; }
run_demo() { local t=$(mktemp -d /tmp/demo.XXXX); cp $d/* $t/; rm -f $t/*.diff $t/meta.json; (cd /repo && timeout 300 bash $t/demo.sh >$t/log 2>&1); local r=$?; tail -3 $t/log; rm -rf /tmp/${t#/tmp/}; return $r; }
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1; run_demo; echo "demo clean: $?"
fi
git apply $d/patch.diff || exit 8
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/tmp/plant.build 2>&1; echo "build: $?"
run_demo; echo "demo bug: $?"
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
p=names(r); s=names(b)
print("stable tests missing:", len(s-p), list(s-p)[:3])
P
fi
if [ -z "$SKIPCHECK" ]; then (cd /verif; timeout 900 python3 tools/check.py ${2:-$prop} 2>&1 | tail -4; echo "check exit: ${PIPESTATUS[0]}"); fi
cd /repo; git checkout -q -- . ; [ -z "$SKIPDEMO" ] && bash /opt/vp/build.sh >/dev/null 2>&1
git status --short
