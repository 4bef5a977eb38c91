#!/bin/bash
# tr.sh PROP SEED NODE: openraft's own debug trace of one node merged with the run's log -> /tmp/trn.txt
. /verif/env.sh
cd /verif/sim && CARGO_TARGET_DIR=/verif/target/trace cargo build --release --offline --features trace 2>&1 | grep -E "^error" -A8
RUST_LOG=${LOG:-debug} timeout 600 /verif/target/trace/release/raftsim one --property $1 --seed $2 --verbose 2>/dev/null |
  sed -E 's/\x1b\[[0-9;]*m//g' | grep -E "^ *[0-9.]+ms .*n$3|RaftCore\{id=$3 |id=$3 |id: $3" | grep -vE "^ *[0-9.]+ms .*(metrics Metrics|client:)" |
  sed -E 's/^ *([A-Z]+) .*runtime_loop\{id=[0-9]\}(:[a-zA-Z_]+\{[^}]*\})*/   \1 /; s/cluster=sim//g' | cut -c1-330 > /tmp/trn.txt
wc -l /tmp/trn.txt
