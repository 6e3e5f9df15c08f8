#!/bin/bash
# seed.sh ID [nocheck]: applies a planted change to /repo, runs tests, its demonstration and its check, and undoes it.
id=$1; d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != fast ]; then
  bash "$d/demo.sh" > /tmp/seed.$id.log 2>&1; echo "$id: demo clean: $? (want 0)"
fi
git apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != fast ]; then
  bash "$d/demo.sh" > /tmp/seed.$id.p.log 2>&1; echo "$id: demo patched: $? (want not 0)"; tail -3 /tmp/seed.$id.p.log
  bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def flat(x):
    return set(x['passed']) if 'passed' in x else {k for k,v in x.items() if v in ('pass','passed',True)}
want=flat(b) if not 'stable' in b else set(b['stable'])
miss=want-flat(r)
print('stable tests missing:',sorted(miss))
P
fi
cd /verif; timeout 900 python3 check.py $p > /tmp/seed.$id.check.log 2>&1; echo "$id: check $p exit $?"; grep -E "^(VIOLATION|ERROR)|# hx.*(assert|panic)" /tmp/seed.$id.check.log | head -4
