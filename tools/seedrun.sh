#!/bin/bash
# seedrun.sh ID CHECK...: apply a planted bug to /repo, run checks, undo.
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  s=$(date +%s); timeout 900 python3 /verif/checks/$c.py > /tmp/seedrun_$id.$c.log 2>&1; r=$?
  echo "$id $c exit=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seedrun_$id.$c.log)"
done
