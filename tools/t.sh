#!/bin/bash
# developer helper: tools/t.sh BIN PROP [args] - run and summarise
cd /verif; b=$1; p=$2; shift 2
build/$b --prop $p --workers 8 --time 200 --replaydir build --out /tmp/o-$b-$p.json "$@" | tail -3
python3 - /tmp/o-$b-$p.json <<'P'
import json,sys
r=json.load(open(sys.argv[1]))
for s in r['subs']: print(s['name'],s['evaluations'],'nt',s['distinct_nontrivial'],'disc',s.get('discarded'),'known',s.get('known'))
print(r['violation'],r.get('message'),r.get('replay'),r['capped'])
P
