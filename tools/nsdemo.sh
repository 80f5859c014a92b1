#!/bin/bash
# nsdemo.sh COPY SEED...: demos only, with a copy of the repository shown as /repo in a private mount namespace; clean tree then patched
C=$1; shift
exec unshare -Urm bash -c 'mount --bind "$0" /repo; for s in "$@"; do d=/verif/seeded/$s; cd /repo; bash /opt/vp/build.sh >/tmp/nb.log 2>&1 || echo BUILD; bash $d/demo.sh >/tmp/nd0.log 2>&1; r0=$?; git apply $d/patch.diff && { [ -n "$NOBUILD" ] || bash /opt/vp/build.sh >/tmp/nb.log 2>&1 || echo "BUILD FAILED"; bash $d/demo.sh >/tmp/nd1.log 2>&1; r1=$?; git checkout -q -- .; }; echo "$s clean=$r0 patched=$r1: $(tail -1 /tmp/nd1.log)"; [ $r0 = 0 ] || tail -3 /tmp/nd0.log; done' "$C" "$@"
