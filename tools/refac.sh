#!/bin/bash
# refac.sh NAME…: apply a behaviour-preserving edit of refactors/, run its checks (which should stay quiet), undo it
for n in "$@"; do
  git -C /repo apply /verif/refactors/$n.diff || { echo "$n does not apply"; continue; }
  for q in $(cat /verif/refactors/$n.props); do
    timeout 900 python3 /verif/lib/check.py $q > /tmp/refac-$n-$q.log 2>&1; rc=$?
    echo "$n $q rc=$rc $(grep -E 'VIOLATION' /tmp/refac-$n-$q.log) | $(grep -c 'FAILED OBL' /tmp/refac-$n-$q.log) failed $(grep -E 'FAILED OBL' /tmp/refac-$n-$q.log | cut -c1-120), $(grep -c UNPROVED /tmp/refac-$n-$q.log) unproved $(grep UNPROVED /tmp/refac-$n-$q.log | cut -c1-160) | $(tail -1 /tmp/refac-$n-$q.log)"
  done
  git -C /repo checkout -- .
done
