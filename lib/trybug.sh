#!/bin/bash
# trybug.sh ID [full]: demo without and with the planted change; with "full" also build, stable tests and the check.
ID=$1; S=/verif/seeded/$ID; C=/tmp/trybug-$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'].lower())")
cp -a /repo $C
unshare -m bash -c "
mount --bind $C /repo; cd /repo
bash $S/demo.sh > $C.clean.log 2>&1; echo \"$ID demo clean: \$?\"
git apply $S/patch.diff || echo NOAPPLY
bash $S/demo.sh > $C.bad.log 2>&1; echo \"$ID demo patched: \$? \$(grep FAILED $C.bad.log | head -1)\"
if [ '$2' = full -o '$2' = check ]; then VERIF_WORKTREE=1 VERIF_SEED=1 VERIF_TIER=quick python3 /verif/checks/$P.py > $C.check.log 2>&1; echo \"$ID check $P: \$? \$(grep -c VIOLATION $C.check.log) \$(tail -1 $C.check.log | cut -c1-150)\"; fi
if [ '$2' = full ]; then bash /opt/vp/build.sh > $C.build.log 2>&1; echo \"$ID build: \$?\"; bash /opt/vp/test.sh $C.res.json > $C.test.log 2>&1
python3 - <<PY
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('$C.res.json'))
p=set(r.get('passed',[])) if isinstance(r,dict) else set()
print('$ID stable missing:', sorted(s-p)[:5])
PY
fi
"
rm -rf $C
