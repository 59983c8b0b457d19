#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug in a scratch copy of /repo, then run its property's check against it.
ID=$1; S=/tmp/seedscratch_$ID; V=/verif; D=$V/seeded/$ID
rm -rf "/tmp/seedscratch_$ID"; mkdir -p $S; cp -a /repo $S/repo
rundemo() { ( mkdir -p $S/demo; cp $D/* $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json; . /opt/vp/env.sh; cd $S/repo; PYTHONPATH=$S/repo/src timeout 300 bash $S/demo/demo.sh >$S/demo.log 2>&1; echo $?; ) }
echo "$ID clean demo: $(rundemo)"
git -C $S/repo apply $D/patch.diff || { echo "$ID PATCH FAILS"; exit 1; }
echo "$ID patched demo: $(rundemo)"; tail -2 $S/demo.log
if [ -z "$2" ]; then
sed -e "s#/opt/vp/work#$S/work#; s#/repo#$S/repo#g; s#PYTHONPATH=/opt/vp#PYTHONPATH=/opt/vp:$S/repo/src#; s#^PYTEST=#export PYTHONPATH=$S/repo/src\nPYTEST=#" /opt/vp/test.sh > $S/test.sh
bash $S/test.sh $S/out.json > $S/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
f=lambda d: set(d.get('passed',d.get('pass',d.get('stable',[]))))
B,O=f(b),f(o); print("$ID tests: base",len(B),"passing",len(O),"missing",sorted(B-O)[:5])
P
fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a $V $S/verif
PV_SRC=$S/repo/src timeout 900 python3 $S/verif/check.py --property $P > $S/check.log 2>&1; echo "$ID check rc=$?"; grep -E "VIOLATION|ERROR|unsupported" $S/check.log | head -5; tail -3 $S/check.log
rm -rf "/tmp/seedscratch_$ID"
