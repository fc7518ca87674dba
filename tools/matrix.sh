#!/bin/bash
# matrix.sh [ID...]: runs the check of each planted bug's property against it.
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 9; }
for s in ${*:-$(ls /verif/seeded)}; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
git apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
for q in $p $EXTRA; do
t0=$SECONDS; timeout 900 /verif/check $q >/tmp/matrix.log 2>&1; r=$?
echo "$s ($p) check $q: exit $r $([ $r = 1 ] && grep -q "VIOLATION property=$q" /tmp/matrix.log && echo CAUGHT || echo MISSED) $((SECONDS-t0)) s: $(grep -B2 '^VIOLATION property' /tmp/matrix.log | head -1 | cut -c1-140)"
done
git checkout -q -- .
done
