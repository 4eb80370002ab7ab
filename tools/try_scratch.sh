#!/bin/bash
# try_scratch.sh [ID...]: like try_seeded.sh, but in a scratch clone of /repo (NEO_REPO), without the stable tests.
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
D=$(mktemp -d /tmp/trysc.XXXXXX)
git clone -q /repo "$D/repo"
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$D/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(NEO_REPO="$D/repo" python3 run.py "$p" quick 2>&1); rc=$?
  git -C "$D/repo" checkout -q -- .
  echo "$id $p check: rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'FAILED|^input|^message' | head -3 | cut -c1-160 | tr '\n' '|')"
done
rm -rf "$D"
