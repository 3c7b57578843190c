#!/bin/bash
# seedtest.sh ID [PROPERTY..]  validates /verif/seeded/ID in private mounts: demo quiet on the clean tree, patch applies, builds, stable
# tests pass, demo fails with it; then runs the checks and prints what they say.  SKIPTEST=1 leaves out build+tests.
ID=$1; shift; CH="$*"; [ -z "$CH" ] && CH=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
export ID CH SKIPTEST NODEMO
S=/tmp/sw/$ID; rm -rf $S; mkdir -p $S/repo $S/wu $S/ww $S/vu $S/vw
cp -a /repo/. $S/repo/
export S
unshare -m bash -c '
mount -t overlay overlay -o lowerdir=/opt/vara-ws,upperdir=$S/wu,workdir=$S/ww /opt/vara-ws
mount -t overlay overlay -o lowerdir=/verif,upperdir=$S/vu,workdir=$S/vw /verif
mount --bind $S/repo /repo
cd /repo; git checkout -q -- .
D=/verif/seeded/$ID
if [ -z "$NODEMO" ]; then bash $D/demo.sh > $S/demo0.log 2>&1; echo "demo clean: $?"; fi
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/build.sh > $S/build.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh $S/t.json > $S/test.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$S/t.json"))
def names(x):
    return x
st=set(b["stable"])
ps=set(t.get("passed") or [])
print("stable tests missing:", len(st-ps), sorted(st-ps)[:5])
P
fi
if [ -z "$NODEMO" ]; then bash $D/demo.sh > $S/demo1.log 2>&1; echo "demo patched: $?"; fi
cd /verif
for c in $CH; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c > $S/check.$c.log 2>&1; echo "check $c: exit $?"; tail -6 $S/check.$c.log | cut -c1-400; done
' 2>&1 | tee /tmp/seedres.$ID.txt
rm -rf $S/wu $S/ww $S/vu $S/vw $S/repo
