#!/bin/bash
# trybug.sh <id> [check|demo|both]: runs demo and check of a planted bug on a scratch copy of /repo
ID=$1; W=${W:-/tmp/wt}; V=/verif; M=${2:-both}
[ -d $W ] || cp -a /repo $W
git -C $W checkout -q -- .; [ -n "$KEEP" ] || { git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD; }
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
export PV_REPO=$W PV_BUILD=$W.b
if [ $M != check ]; then
  O=$($V/bin/build.sh plain | tail -1); cp $W/_build/nginx/objs/pingos.name $O/ 2>/dev/null
  T=$(mktemp -d /tmp/dm.XXXX); cp $V/seeded/$ID/* $T; rm -f $T/*.diff $T/meta.json
  (cd /repo && PVD_OBJS=$O bash $T/demo.sh) ; echo "demo unpatched: $?"
fi
git -C $W apply $V/seeded/$ID/patch.diff || exit 3
if [ $M != check ]; then
  $V/bin/build.sh plain >/dev/null || exit 4
  (cd /repo && PVD_OBJS=$O bash $T/demo.sh) ; echo "demo patched: $?"
  rm -rf $T
fi
if [ $M != demo ]; then
  (cd $V && VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 checks/run.py $P 2>&1 | cut -c1-600 | tail -5); echo "check $P: ${PIPESTATUS[0]}"
fi
git -C $W checkout -q -- .
