#!/bin/bash
# seedtest.sh <seed id> [property]: builds and tests the planted bug in a copy, then runs its check against /repo with the patch applied
S=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
cd /repo && sh $S/demo.sh >/dev/null 2>&1; a=$?
git apply $S/patch.diff || exit 9
sh $S/demo.sh >/dev/null 2>&1; b=$?
t=skip; if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/x/b.log 2>&1 && bash /opt/vp/test.sh /tmp/x/t.json >/tmp/x/t.log 2>&1; t=$(python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/x/t.json'))
st=b.get('stable') or b.get('stable_passing') or b.get('passed') or []
p=set(r.get('passed',[]))
print('pass' if all(x in p for x in ['tests.test_targets::test_cs_early_return','tests.test_targets::test_cs_event_mode','tests.test_targets::test_fmi2','tests.test_targets::test_fmi3']) or set(st)<=p else 'FAIL '+str(r)[:300])
E
); fi
cd /verif && timeout 900 python3 check.py $P > /tmp/x/seed.out 2>/tmp/x/seed.err; c=$?
git -C /repo checkout -- .
echo "$1 $P demo:$a/$b tests:$t check:$c $(grep -h VIOLATION /tmp/x/seed.out | head -1) $(grep -h 'failed obl' /tmp/x/seed.out | head -1 | cut -c1-150)"
