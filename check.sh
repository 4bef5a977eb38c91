#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on the current tree of /repo
# check.sh replay FILE                 run a replay file again
# check.sh build                       build everything a check needs
# Environment: VERIF_SEED (default 1), CHECK_SECONDS (search time), CHECK_JOBS.
cd "$(dirname "$0")" || exit 2
DIR=$PWD
. ./env.sh
SEED=${VERIF_SEED:-1}
JOBS=${CHECK_JOBS:-$(nproc)}

# What the simulator is built from in /repo. Cargo looks at modification times; this looks at contents.
sources() { find /repo/openraft /repo/macros /repo/examples/memstore /repo/stores /repo/Cargo.toml \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1; }

build() { # build CRATE FEATURES TARGETDIR
  local crate=$1; shift
  export CARGO_TARGET_DIR=$2
  if [ "$crate" = stores ]; then export RUSTFLAGS="--cfg openraft_sim"; else unset RUSTFLAGS; fi
  mkdir -p "$2"
  local h log="$2/build.log"
  h=$(sources)
  if [ "$(cat "$2/sources" 2>/dev/null)" != "$h" ]; then
    (cd $crate && cargo clean --release --offline -p openraft -p openraft-macros -p memstore $([ $crate = stores ] && echo -p openraft-memstore -p openraft-rocksstore -p openraft-sledstore)) >/dev/null 2>&1
  fi
  if ! (cd $crate && cargo build --release --offline $1) >"$log" 2>&1; then
    # once more from scratch, in case the cache is at fault
    # (RocksDB takes minutes: what was built of other crates stays)
    if [ $crate = sim ]; then rm -rf "${2:?}/release"; else rm -rf "${2:?}/release/incremental"; fi
    if ! (cd $crate && cargo build --release --offline $1) >"$log" 2>&1; then
      tail -40 "$log"
      echo "ERROR: the simulator does not build on this tree"
      exit 2
    fi
  fi
  echo "$h" > "$2/sources"
}

sim() {
  case "$1" in
  C28) T=$DIR/target/stl; build sim "--features single-term-leader" "$T" ;;
  # with the debug assertions of the engine
  C27) T=$DIR/target/dbg; CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true build sim "" "$T" ;;
  *) T=$DIR/target/sim; build sim "" "$T" ;;
  esac
}
stores() { T=$DIR/target/stores; build stores "" "$T"; }

case "$1" in
build)
  sim C01
  sim C27
  sim C28
  stores
  exit 0 ;;
replay)
  P=$(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); c=d.get("cfg", d); print(c["property"], "stores" if "phases" in c else "sim")' "$2") || exit 2
  F=$(realpath "$2")
  set -- $P
  if [ "$2" = stores ]; then stores; exec "$T/release/storesim" replay "$F"; fi
  sim "$1"
  exec "$T/release/raftsim" replay "$F" ;;
C[0-9][0-9])
  P=$1
  TIER=${2:-${VERIF_TIER:-quick}}
  if [ "$TIER" = thorough ]; then S=${CHECK_SECONDS:-600}; else S=${CHECK_SECONDS:-40}; fi
  case $P in
  C33|C34)
    stores
    exec "$T/release/storesim" check --property "$P" --seed "$SEED" --seconds "$S" --jobs "$JOBS" --tier "$TIER" --dir "$DIR" ;;
  C29)
    # under the whole engine, and then by themselves
    sim C29
    "$T/release/raftsim" check --property C29 --seed "$SEED" --seconds $((S / 2)) --jobs "$JOBS" --tier "$TIER" --dir "$DIR" || exit $?
    stores
    exec "$T/release/storesim" check --merge --property C29 --seed "$SEED" --seconds $((S / 2)) --jobs "$JOBS" --tier "$TIER" --dir "$DIR" ;;
  esac
  sim "$P"
  exec "$T/release/raftsim" check --property "$P" --seed "$SEED" --seconds "$S" --jobs "$JOBS" --tier "$TIER" --dir "$DIR" ;;
*) sed -n 2,5p "$0"; exit 2 ;;
esac
