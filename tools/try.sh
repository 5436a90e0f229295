#!/bin/bash
# try.sh SEED [PROP...]: apply the seeded change, run the check(s), undo it
s=/verif/seeded/$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply $s/patch.diff || exit 9
for q in $p; do
  timeout 900 python3 /verif/lib/check.py $q > /tmp/try.log 2>&1; rc=$?
  echo "$(basename $s) $q rc=$rc $(grep -E 'VIOLATION' /tmp/try.log) | $(grep -c 'FAILED OBL' /tmp/try.log) failed obligations, $(grep -c UNPROVED /tmp/try.log) unproved | $(tail -1 /tmp/try.log)"
done
git -C /repo checkout -- .
