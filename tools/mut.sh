#!/bin/bash
# usage: mut.sh 'sed-expr' file check...   (applies to /repo, runs the checks, restores)
cd /repo && git diff --quiet || { echo dirty; exit 9; }
sed -i "$1" "$2"; git diff --quiet && echo "NO CHANGE: $1"
shift 2
for k in "$@"; do out=$(cd /verif && timeout 900 python3 run_check.py $k 2>&1); rc=$?; echo "$k rc=$rc $(echo "$out" | grep -A1 VIOLATION | head -2 | cut -c1-220 | tr '\n' ' ')$(echo "$out" | tail -1 | cut -c1-150)"; done
git checkout -q -- .
