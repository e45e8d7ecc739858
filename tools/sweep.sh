#!/bin/bash
# sweep.sh PROP CASES SEED... : run a check over several seeds and show what fails
p=$1; c=$2; shift 2
for s in "$@"; do timeout 900 python3 run.py $p quick --cases $c --seed $s 2>&1 | grep -v "^  [a-z ]*: [0-9]*$" | head -${LINES_MAX:-30} | cut -c1-400; done
