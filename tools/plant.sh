#!/bin/bash
# plant.sh ID [CHECK-ID]: confirms the planted bug of /verif/seeded/ID. With an uncommitted change in /repo the change
# becomes patch.diff; otherwise patch.diff is applied. Ends with /repo unchanged. TESTS=0 skips build and tests.
id=$1; d=/verif/seeded/$id; pid=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo || exit 2
if ! git diff --quiet; then git diff > $d/patch.diff; else git apply $d/patch.diff || exit 2; fi
trap 'git -C /repo checkout -q -- .' EXIT
if [ "${TESTS:-1}" = 1 ]; then
  bash /opt/vp/test.sh /tmp/plant_$id.json > /tmp/plant_$id.log 2>&1
  python3 - $id <<'P'
import json, sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/plant_'+sys.argv[1]+'.json'))
print("tests: missing", sorted(b-set(r['passed']))[:5], "of", len(b))
P
fi
bash $d/demo.sh > /tmp/plant_$id.demo 2>&1; echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/plant_$id.demo
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $pid 2>&1 | tail -12)
git -C /repo checkout -q -- .
bash $d/demo.sh > /tmp/plant_$id.demo 2>&1; echo "demo without: $? (want 0)"; tail -3 /tmp/plant_$id.demo
