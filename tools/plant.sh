#!/bin/bash
# plant.sh ID...: confirms planted bugs: patch applies, builds, stable tests pass, demo 0 without / nonzero with.
for id in "$@"; do
s=/verif/seeded/$id
[ -f $s/demo.rs ] && cp /verif/tools/demo.sh $s/demo.sh && chmod +x $s/demo.sh
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 9; }
bash $s/demo.sh >/tmp/plant0.log 2>&1; r0=$?
git apply --check $s/patch.diff || { echo "$id: patch does not apply"; continue; }
git apply $s/patch.diff
bash /opt/vp/build.sh >/tmp/plantb.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/planto.json >/tmp/plantt.log 2>&1
miss=$(python3 - <<'P'
import json
o=json.load(open('/tmp/planto.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
st=[x if isinstance(x,str) else x.get('name') for x in (st if isinstance(st,list) else st.get('passed',[]))]
print(len(set(st)-set(o['passed'])))
P
)
bash $s/demo.sh >/tmp/plant1.log 2>&1; r1=$?
git checkout -q -- .
echo "$id: demo clean $r0, build $b, missing tests $miss, demo planted $r1 $([ $r0 = 0 ] && [ $b = 0 ] && [ "$miss" = 0 ] && [ $r1 != 0 ] && [ $r1 != 3 ] && echo OK || echo BAD)"
[ $r0 != 0 ] && tail -15 /tmp/plant0.log
[ $r1 = 3 ] && tail -15 /tmp/plant1.log
done
