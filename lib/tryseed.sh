#!/bin/bash
# tryseed.sh SEED [CHECK]: confirm a planted bug (demo passes without, fails with; build and stable tests pass) and run the check
S=$1; D=/verif/seeded/$S; C=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cd /repo || exit 9
test -z "$(git status --porcelain --untracked-files=no)" || { echo "repo dirty"; exit 9; }
timeout 300 bash $D/demo.sh > /tmp/seed_$S.clean 2>&1; echo "demo clean rc=$? (want 0)"
git apply $D/patch.diff || exit 9
if [ "$NOBUILD" != 1 ]; then
bash /opt/vp/test.sh /tmp/seed_$S.json > /tmp/seed_$S.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seed_$S.json'))
miss=[t for t in b if t not in o['passed']]
print('stable tests failing:', len(miss), miss[:8])
P
fi
timeout 300 bash $D/demo.sh > /tmp/seed_$S.bug 2>&1; echo "demo bug rc=$? (want nonzero)"
tail -2 /tmp/seed_$S.bug
(cd /verif; timeout 900 python3 lib/check.py $C > /tmp/seed_$S.check 2>&1; echo "check $C rc=$?"; grep -m2 -E "VIOLATION|INCONCL|ERROR" /tmp/seed_$S.check)
git checkout -- .
