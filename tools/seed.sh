#!/bin/bash
# seed.sh NAME PATCH PROP REPLAY "needs" "what it breaks": developer's tool, writes /verif/seeded/NAME
N=$1; P=$2; PROP=$3; R=$4
D=/verif/seeded/$N; mkdir -p $D
cp "$P" $D/patch.diff
cp "$R" $D/replay.json
cp /verif/tools/demo.sh $D/demo.sh; chmod +x $D/demo.sh
K=sim; C=/verif/sim
[ $PROP = C28 ] && K=stl
python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); c=d.get("cfg", d); sys.exit(0 if "phases" in c else 1)' "$R" && { K=stores; C=/verif/stores; }
echo $K > $D/kind
tar -C $C --exclude target --transform 's#^\.#src#' --sort=name --mtime=2026-01-01 --owner=0 --group=0 -czf $D/src.tgz .
python3 - "$D/meta.json" "$PROP" "$5" "$6" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
ls -la $D
