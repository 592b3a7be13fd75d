#!/bin/bash
# developer helper: tools/seedcheck.sh ID [PROP...]: applies the planted bug to /repo, runs quick checks, restores
ID=$1; shift
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
cd /repo; [ -z "$(git status --short)" ] || { echo dirty; exit 1; }
git apply /verif/seeded/$ID/patch.diff || exit 1
cd /verif
for p in $P; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py check $p --tier quick > /tmp/seedcheck.$ID.$p.log 2>&1; echo "$ID $p exit $? $(grep -m1 VIOLATION /tmp/seedcheck.$ID.$p.log)"; grep -m3 -iE "fail|violat" /tmp/seedcheck.$ID.$p.log | head -3; done
git -C /repo checkout -- .
