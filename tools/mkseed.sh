#!/bin/bash
# developer helper: tools/mkseed.sh ID PROPERTY "needs" "what it breaks" [flags]
# takes the edits made in the scratch copy /tmp/sd/repo2, and /tmp/sd/demo.cpp
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
cd /tmp/sd/repo2
git diff -- lib app > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cp /tmp/sd/demo.cpp $D/demo.cpp
cp /verif/tools/demo/demo.sh /verif/tools/demo/common.h $D/
mkdir -p $D/shim; cp -r /verif/shim/. $D/shim/
if [ -n "$5" ]; then echo "$5" > $D/flags; else rm -f $D/flags; fi
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
set +e; echo "patched:"; bash $D/demo.sh; a=$?; [ $a != 0 ] || { echo "BAD: patched passes"; exit 1; }
git stash -q; set +e
echo "clean:"; bash $D/demo.sh; b=$?
git stash drop -q
[ $b = 0 ] || { echo "BAD: clean exit $b"; exit 1; }
echo "clean ok"
