#!/bin/bash
# runall.sh LOG ID...
L=$1; shift
for i in "$@"; do nice -n 10 python3 tool.py check $i >> $L 2>&1; done
