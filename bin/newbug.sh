#!/bin/bash
# newbug.sh <id> <property>: folder of a planted bug; patch = diff of /tmp/wt against /repo's HEAD,
# demo.py taken from /tmp/demo.py, needs / breaks from the arguments.
set -e
V=/verif; ID=$1; D=$V/seeded/$ID
mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
cp $V/bin/demo/demo.sh $V/bin/demo/pvd.py $V/lib/rtmp.py $V/bin/demo/unit.py $V/bin/demo/unit_mod.c $D/
cp /tmp/demo.py $D/demo.py
python3 - "$2" "$3" "$4" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property": sys.argv[1], "needs": sys.argv[2], "what_it_breaks": sys.argv[3]}, indent=1))
P
git -C /tmp/wt checkout -- .
