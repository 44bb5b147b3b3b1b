#!/bin/bash
# usage: plant.sh ID   : verifies /verif/seeded/ID in a scratch copy, then runs the property's check on /repo with the patch
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash $D/demo.sh >/tmp/plant.o 2>&1 && echo "clean demo ok" || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/plant.o; exit 1; }
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/plant.json 2>&1 | tail -1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/plant.json'))
p=set(r.get('passed',[]))
print('STABLE FAIL', [x for x in b if x not in p][:3]) if any(x not in p for x in b) else print('stable tests pass')
PY
bash $D/demo.sh >/tmp/plant.o 2>&1 && echo "DEMO PASSES WITH PATCH" || { echo "demo fails with patch, good:"; tail -2 /tmp/plant.o; }
cd /verif; for c in ${2:-$P}; do ./check $c quick | cut -c1-300 | head -4; done
git -C /repo checkout -- . ; find /repo -name __pycache__ -path '*pyactr*' >/dev/null
