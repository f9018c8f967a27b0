#!/bin/bash
# try_seed.sh <bug id> [checks...]: confirm a planted bug in /repo (applied and
# undone again): builds, stable tests pass, demo fails; then run the checks.
b=/verif/seeded/$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo dirty /repo; exit 2; }
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$b/meta.json'))['property'])")
d=$(mktemp -d /tmp/demo.XXXX); cp -a $b/. $d/; rm -f $d/*.diff $d/meta.json
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash $d/demo.sh >/dev/null 2>&1); echo "demo unchanged: $? (want 0)"
git -C /repo apply $b/patch.diff || exit 2
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1); echo "build: $?"
if [ -z "$SKIP_TESTS" ]; then
bash /opt/vp/test.sh /tmp/w/seedout.json >/tmp/w/seedtest.log 2>&1
/opt/venv/bin/python - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/w/seedout.json'))
b=set(base.get('stable') or base.get('passed') or base['tests']); p=set(out['passed'])
print('broken stable tests:', sorted(b-p)[:5], len(b), len(p))
P
fi
(cd /repo && timeout 300 bash $d/demo.sh 2>&1 | tail -3; exit ${PIPESTATUS[0]}); echo "demo patched: $? (want nonzero)"
for c in ${@:-$prop}; do /verif/check.sh $c quick 2>&1 | grep -v "^minimal\|KNOWN" | cut -c1-300 | tail -4; done
git -C /repo checkout -- . 
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1)
rm -rf "$d"
git -C /repo status --porcelain
