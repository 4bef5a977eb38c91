#!/bin/bash
# mut.sh PATCH PROP [SECONDS [SEED]]: developer's tool. Builds the simulator against a scratch copy of /repo with PATCH
# applied (in /tmp/mv) and runs the check of PROP there. Nothing registered in MANIFEST.json uses it.
P=$(realpath "$1"); PROP=$2; S=${3:-45}; SEED=${4:-1}
. /verif/env.sh
M=/tmp/mv
mkdir -p $M/out
[ -d $M/repo ] || git clone -q /repo $M/repo
git -C $M/repo checkout -q -- . && git -C $M/repo pull -q
rsync -rc --exclude target --exclude Cargo.toml /verif/sim/ $M/sim/
sed 's#../../repo/#/tmp/mv/repo/#' /verif/sim/Cargo.toml > $M/sim/Cargo.toml
git -C $M/repo apply "$P" || { echo "PATCH DOES NOT APPLY"; exit 3; }
F=""; export CARGO_TARGET_DIR=$M/target
if [ "$PROP" = C28 ]; then F="--features single-term-leader"; export CARGO_TARGET_DIR=$M/target-stl; fi
# cargo looks at times: make every file of the copy new enough when it differs from the last build
find $M/repo/openraft $M/repo/stores/memstore -name '*.rs' -newer "$P" -prune >/dev/null
for f in $(git -C $M/repo diff --name-only) $(cat $M/last 2>/dev/null); do touch $M/repo/$f; done
git -C $M/repo diff --name-only > $M/last
(cd $M/sim && cargo build --release --offline $F) >$M/build.log 2>&1 || { grep -a -A8 '^error' $M/build.log | head -40; echo "DOES NOT BUILD"; exit 4; }
cp /verif/known_findings.json $M/out/; cp -r /verif/known $M/out/
T0=$(date +%s)
$CARGO_TARGET_DIR/release/raftsim check --property $PROP --seed $SEED --seconds $S --jobs 8 --tier quick --dir $M/out 2>&1 | grep -a -v KNOWN | cut -c1-${WIDTH:-300} | tail -6
echo "[$(( $(date +%s) - T0 ))s]"
git -C $M/repo checkout -q -- .
