#!/bin/bash
# rebuild and survey
. /verif/env.sh
cd /verif/sim && cargo build --release --offline 2>&1 | grep -E "^error" -A8
/verif/target/sim/release/raftsim survey --property ${1:-all} --runs ${2:-20} --seed ${3:-1} > /tmp/s.txt; cut -c1-${4:-330} /tmp/s.txt | grep -v "^probes\|^faults"
