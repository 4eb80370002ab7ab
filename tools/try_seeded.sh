#!/bin/bash
# try_seeded.sh [ID...]: applies each planted bug to /repo, runs the stable tests and the property's quick check, undoes it.
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  t=skipped
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/try.json >/tmp/try.log 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/try.json'));print(len(d['passed']),'passed',len(d['failed']),'failed')"); fi
  s=$(date +%s)
  out=$(python3 run.py "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p tests: $t check: rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'FAILED|^input|^message' | head -3 | cut -c1-160 | tr '\n' '|')"
done
