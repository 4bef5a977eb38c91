#!/bin/bash
# show.sh PROP SEED PATTERN [LINES]: the log of one run up to its first violation of this pattern
/verif/target/sim/release/raftsim one --property $1 --seed $2 --verbose > /tmp/show.txt 2>&1
L=$(grep -n "VIOLATION.*$3" /tmp/show.txt | head -1 | cut -d: -f1)
head -${L:-100000000} /tmp/show.txt | grep -v "metrics Metrics" | tail -${4:-40} | cut -c1-260
