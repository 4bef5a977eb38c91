#!/bin/bash
# Demonstration: replays one recorded simulated run (replay.json: a configuration, a workload and a list of faults, with
# every delay and interleaving drawn from its seed) of the real openraft in this directory, with the simulator's source
# beside this script. Exits 0 when the run keeps the property, 1 when it breaks it.
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "${T:?}"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2024-07-02 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T/target
unset RUSTFLAGS
KIND=$(cat "$HERE/kind")
tar -xzf "$HERE/src.tgz" -C "$T" || exit 2
cd "$T/src" || exit 2
sed -i "s#\.\./\.\./repo/#$REPO/#" Cargo.toml
FEATURES=; BIN=raftsim
case $KIND in
stl) FEATURES="--features single-term-leader" ;;
stores) BIN=storesim; export RUSTFLAGS="--cfg openraft_sim" ;;
esac
if ! cargo build --release --offline $FEATURES >"$T/build.log" 2>&1; then tail -30 "$T/build.log"; echo "the demonstration does not build"; exit 2; fi
"$CARGO_TARGET_DIR/release/$BIN" replay "$HERE/replay.json" | cut -c1-600 | tail -40
exit "${PIPESTATUS[0]}"
