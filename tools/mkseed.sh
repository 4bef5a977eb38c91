#!/bin/bash
# mkseed.sh NAME PATCH PROP "needs" "what": runs the check with the patch (tools/mut.sh), and stores the planted bug with the replay it found
N=$1; P=$2; PROP=$3
O=$(bash /verif/tools/mut.sh "$P" $PROP ${SECS:-60}); echo "$O" | cut -c1-200
R=$(echo "$O" | grep -a -o "VIOLATION property=$PROP replay=.*" | head -1 | sed 's/.*replay=//')
[ -n "$R" ] || { echo "not caught"; exit 1; }
bash /verif/tools/seed.sh $N "$P" $PROP "$R" "$4" "$5" >/dev/null; echo "seeded $N"
# the demonstration, with and without
cd /tmp/mv/repo && git checkout -q -- . && bash /verif/seeded/$N/demo.sh >/dev/null 2>&1; A=$?
git apply /verif/seeded/$N/patch.diff && bash /verif/seeded/$N/demo.sh | tail -2; B=${PIPESTATUS[0]}; git checkout -q -- .
echo "demo: clean $A patched $B"
