#!/bin/bash
# nsseed.sh WORKER SEED...: planted changes in a private mount namespace where /repo, /verif and /tmp are scratch copies
# (build, demo, stable tests, the property's check). Results: /root/seedlog/SEED. NOTESTS=1 / NOCHECK=1 leave parts out. PROPS="C01 C02" checks these instead.
W=$1; shift; mkdir -p /root/seedlog; S=/tmp/sr$W; V=/tmp/v$W; [ -d $S ] || cp -a /repo $S; rsync -a --delete --exclude=.git /verif/ $V/; chmod 755 $S $V
(cd $S && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD)
exec nice unshare -Urm bash -c 'mount --bind "$0" /repo; mount --bind "$1" /verif; mount -t tmpfs t /tmp; shift; for s in "$@"; do d=/verif/seeded/$s; cd /repo; git checkout -q -- .; o=/root/seedlog/$s; : > $o
 git apply $d/patch.diff 2>>$o || { echo "$s: patch does not apply" | tee -a $o; continue; }
 bash /opt/vp/build.sh >$o.build 2>&1 || { echo "$s BUILD FAILED" | tee -a $o; git checkout -q -- .; continue; }
 bash $d/demo.sh >$o.demo 2>&1; r=$?; t=-
 [ -n "$NOTESTS" ] || { bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1; t=$(python3 -c "
import json;b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);f=b-set(json.load(open(\"/tmp/st.json\"))[\"passed\"]);print(len(f),sorted(f)[:3])"); }
 P=${PROPS:-$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")}; c=-
 [ -n "$NOCHECK" ] || for p in $P; do (cd /verif && timeout 1500 python3 check.py $p >$o.$p 2>&1); c="$c $p=$? $(grep -h VIOLATION $o.$p|head -1)"; done
 git checkout -q -- .; echo "$s [$P] demo=$r ($(tail -1 $o.demo)) tests_failed=$t check=$c" | tee -a $o; done' $S $V "$@"
