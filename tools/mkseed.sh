#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what" DEMO.cpp  -- turns the diff of /tmp/wt into seeded/ID, checks the demo both ways
set -u
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
cp -r /verif/tools/demo/{shim,pool.cpp,pool.h,demo.h,build_demo.sh,demo.sh} $D/
cp $5 $D/demo.cpp
git -C /tmp/wt diff > $D/patch.diff
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
(cd /repo && bash $D/demo.sh >/tmp/seed.clean 2>&1); a=$?
(cd /tmp/wt && bash $D/demo.sh >/tmp/seed.bug 2>&1); b=$?
echo "$ID: clean=$a (want 0) bug=$b (want !=0): $(grep -a FAIL /tmp/seed.bug | head -1) $(tail -1 /tmp/seed.bug | cut -c1-150)"
[ $a = 0 ] || tail -3 /tmp/seed.clean
