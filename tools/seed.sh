#!/bin/bash
# seed.sh ID [notest]  -- confirms a planted bug (tests pass, demo distinguishes) and runs its property's check on it.
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -n "$(git status --porcelain)" ] && { echo "repo dirty"; exit 2; }
if [ "$2" != "notest" ]; then bash $d/demo.sh >/tmp/seed-demo0.log 2>&1; echo "demo clean: $?"; fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != "notest" ]; then
  bash $d/demo.sh >/tmp/seed-demo1.log 2>&1; echo "demo patched: $?"
  bash /opt/vp/test.sh /tmp/seed-out.json >/tmp/seed-test.log 2>&1
  python3 -c "
import json;d=json.load(open('/tmp/seed-out.json'));print('tests passed',len(d['passed']),'failed',d['failed'][:5])"
fi
cd /verif; for q in $p $3; do bash run.sh $q > /tmp/seed-check.$q.log 2>&1; echo "check $q exit $?: $(grep -c '^--- failure' /tmp/seed-check.$q.log) groups; $(grep '^--- failure' /tmp/seed-check.$q.log | head -3 | cut -c1-200)"; grep "^VIOLATION" /tmp/seed-check.$q.log; done
