#!/bin/bash
# usage: seed_run.sh [-j N] ids... : runs each seed's own check against a scratch copy of /repo with the patch
J=2
[ "$1" = -j ] && { J=$2; shift 2; }
V=$(dirname "$(dirname "$(readlink -f "$0")")")
one() {
  id=$1; V=$2; T=$(mktemp -d /tmp/sr-XXXX); cp -a /repo $T/r; cp -a $V $T/v; git -C $T/r apply $V/seeded/$id/patch.diff || { echo "$id APPLY"; rm -rf $T; exit; }
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); out=$(SYMX_REPO=$T/r timeout 900 python3 $T/v/run_check.py ${CHK:-$p} --jobs ${JOBS:-4} 2>&1); rc=$?
  echo "$id ${CHK:-$p} rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -A1 VIOLATION | sed -n 2p | cut -c1-230) $([ $rc = 1 ] || echo "$out" | tail -2 | cut -c1-200)"
  rm -rf $T
}
export -f one
printf '%s\n' "$@" | xargs -P $J -I{} bash -c "one {} $V"
