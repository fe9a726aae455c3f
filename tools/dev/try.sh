#!/bin/bash
# try.sh [-n] id...   (-n: no test-suite)
T=1; [ "$1" = -n ] && { T=0; shift; }
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 cd /repo; (timeout 300 bash $d/demo.sh >/tmp/seedkit/$id.clean 2>&1); c=$?
 git -C /repo apply $d/patch.diff || { echo "$id patch fails"; continue; }
 (timeout 300 bash $d/demo.sh >/tmp/seedkit/$id.bug 2>&1); b=$?
 t=skip
 if [ $T = 1 ]; then bash /opt/vp/test.sh /tmp/seedkit/$id.json >/tmp/seedkit/$id.test 2>&1
 t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedkit/$id.json'))
def names(x):
    for k in ('passed','stable','pass'): 
        if k in x: return set(x[k])
    raise Exception(list(x))
m=names(b)-names(r); print('tests-ok' if not m else 'TESTS-FAIL '+str(sorted(m)[:4]))
P
); fi
 s=$(date +%s); (cd /verif; timeout 900 bin/check $p >/tmp/seedkit/$id.check 2>&1); k=$?; e=$(date +%s)
 git -C /repo checkout -q -- .
 echo "$id $p clean=$c bug=$b $t check=$k ($((e-s))s) $(grep -m1 VIOLATION /tmp/seedkit/$id.check | cut -c1-140)"
done
