#!/bin/bash
# plant.sh ID  -- verifies /verif/seeded/ID
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git checkout -q -- .
bash $d/demo.sh >/tmp/pl_$id.clean 2>&1; c=$?
git apply $d/patch.diff || { echo "$id: APPLY FAIL"; exit 1; }
bash /opt/vp/build.sh >/tmp/pl_$id.build 2>&1 || { echo "$id BUILD FAIL"; tail -20 /tmp/pl_$id.build; git checkout -q -- .; exit 1; }
bash /opt/vp/test.sh /tmp/pl_$id.json >/tmp/pl_$id.test 2>&1
st=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/pl_$id.json'))
s=b.get('stable') or b.get('passed') or b
p=set(r.get('passed',[]))
s=set(s if isinstance(s,list) else s.get('passed',[]))
print('tests-ok' if s<=p else 'TESTS-FAIL %s'%sorted(s-p))
P
)
bash $d/demo.sh >/tmp/pl_$id.bug 2>&1; b=$?
cd /verif; s=$(date +%s); ./check.sh $prop quick >/tmp/pl_$id.chk 2>&1; k=$?; e=$(date +%s)
git -C /repo checkout -q -- .
echo "$id [$prop] demo clean=$c bug=$b $st check=$k $((e-s))s $(grep -m1 VIOLATION /tmp/pl_$id.chk)"
