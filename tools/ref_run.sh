#!/bin/bash
# ref_run.sh BUNDLE CHECK...: applies a bundle of behaviour-preserving edits to a scratch copy and runs the checks on it (dev tool)
b=$1; shift
w=$(mktemp -d /tmp/ref-XXXXXX); git clone -q /repo $w/r
/opt/venv/bin/python - $b $w/r <<'P' || exit 3
import sys; sys.path.insert(0, "/verif/tools"); sys.dont_write_bytecode = True
from refactors import R
for f, old, new in R[sys.argv[1]]:
    p = sys.argv[2] + "/" + f; s = open(p).read()
    assert s.count(old) == 1, (s.count(old), f, old)
    open(p, "w").write(s.replace(old, new))
P
if [ "$1" = tests ]; then cd $w/r && PYTHONPATH=$w/r /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 8 --randomly-seed=1 2>&1 | tail -5; rm -rf $w; exit; fi
cd /verif
for c in ${@:-$(seq -f C%02g 1 26)}; do
  s=$(date +%s); SYMX_REPO=$w/r timeout 900 python3 run_check.py $c -v --jobs ${RJ:-8} > /tmp/ref-$b-$c.log 2>&1; rc=$?
  echo "$b $c rc=$rc $(( $(date +%s)-s ))s $(grep -cE 'INCON' /tmp/ref-$b-$c.log) $(tail -1 /tmp/ref-$b-$c.log | cut -c1-150)"
done
rm -rf $w
