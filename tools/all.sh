#!/bin/bash
# runs every claimed check once: tools/all.sh quick|thorough [ids]
cd "$(dirname "$0")/.."
t=${1:-quick}; shift
for p in ${*:-$(python3 -c 'from props import PROPS; print(*PROPS)')}; do python3 check.py $p $t 2>&1 | grep -v "^$"; echo "   exit $?"; done
