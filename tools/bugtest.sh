#!/bin/bash
# bugtest.sh ID [check...]: confirm a planted bug in a scratch copy of /repo (mounted over /repo in a private namespace):
# builds, passes the stable tests, its demonstration fails with it and passes without it; then runs the property's check.
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/bt-$ID
[ -d $W ] || cp -a /repo $W
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=/tmp/btd-$ID; mkdir -p $D; cp $S/* $D/; rm -f $D/*.diff $D/meta.json
echo "== $ID ($PROP)"
(cd /repo && timeout 300 bash $D/demo.sh >$D/log0 2>&1); echo "demo unchanged: $? (want 0)"
unshare -Urm bash -c "
mount --bind $W /repo || exit 9
cd /repo && git checkout -q -- . && git apply $S/patch.diff || { echo PATCH FAILS; exit 1; }
(timeout 300 bash $D/demo.sh >$D/log1 2>&1); echo \"demo patched: \$? (want nonzero)\"; tail -3 $D/log1
if [ -z '$SKIPTESTS' ]; then
bash /opt/vp/build.sh > $D/build.log 2>&1 || { echo BUILD FAILS; grep -m5 error: $D/build.log; exit 1; }
bash /opt/vp/test.sh $D/tests.json > $D/test.log 2>&1; tail -1 $D/test.log
fi
cd /verif; for c in ${@:-$PROP}; do VERIF_SEED=1 VERIF_TIER=quick python3 engine/run.py \$c --tier quick > $D/check.log 2>&1; echo \"check \$c: exit \$? (want 1)\"; grep -m2 VIOLATION $D/check.log; done
cd /repo; git checkout -q -- .
"
