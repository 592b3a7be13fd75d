#!/bin/bash
# developer helper: tools/seedcheck2.sh ID [PROP...]: quick checks against a scratch copy of /repo with the planted bug
ID=$1; shift
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
W=/tmp/sd/sc; V=/tmp/sd/scv; rm -rf /tmp/sd/sc; cp -a /repo $W
rm -rf /tmp/sd/scv; mkdir $V; cd /verif; cp -r run.py plan.py harness shim regress known_findings.jsonl properties.jsonl $V/ ; mkdir -p $V/build $V/evidence
git -C $W apply /verif/seeded/$ID/patch.diff || exit 1
cd $V
for p in $P; do s=$(date +%s); VP_REPO=$W VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py check $p --tier quick > /tmp/sd/seedcheck.$ID.$p.log 2>&1; echo "$ID $p exit $? $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sd/seedcheck.$ID.$p.log)"; grep -m2 -iE "fail|#" /tmp/sd/seedcheck.$ID.$p.log | head -2; done
rm -rf /tmp/sd/sc /tmp/sd/scv
