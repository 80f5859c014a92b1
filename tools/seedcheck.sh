#!/bin/bash
# seedcheck.sh ID...: demos on the clean tree, then with each patch (header/core compiled afresh via build.sh), then the property's check
for s in "$@"; do
 d=/verif/seeded/$s; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply $d/patch.diff || { echo "$s: patch does not apply"; continue; }
 [ -n "$NOBUILD" ] || (cd /repo && bash /opt/vp/build.sh >/tmp/sb.log 2>&1) || echo "$s: BUILD FAILED"
 (cd /repo && bash $d/demo.sh >/tmp/sd.log 2>&1); r=$?
 if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/st.json >/tmp/stt.log 2>&1; t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print(len(b-set(json.load(open('/tmp/st.json'))['passed'])),sorted(b-set(json.load(open('/tmp/st.json'))['passed']))[:3])"); fi
 [ -z "$NOCHECK" ] && (cd /verif && timeout 900 python3 check.py $P >/tmp/sc.log 2>&1); c=$?
 git -C /repo checkout -q -- .
 echo "$s [$P] demo rc=$r tests_failed=$t check rc=$c $(grep -h VIOLATION /tmp/sc.log|head -1)"; grep -B1 -h VIOLATION /tmp/sc.log | head -4
done
