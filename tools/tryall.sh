#!/bin/bash
# tryall.sh [id...] : run the check of each planted bug's property on a scratch copy with the bug (development tool)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -f checks/${p,,}.py ] || { echo "$id $p: no check"; continue; }
  w=$(mktemp -d /tmp/try_XXXX); cp -a /repo $w/repo; git -C $w/repo apply /verif/seeded/$id/patch.diff || echo "PATCH FAILS"
  o=$(VERIF_REPO=$w/repo python3 check.py $p 2>&1); rc=$?
  echo "$id $p: exit $rc $(echo "$o" | grep -v '^VIOLATION' | head -3 | cut -c1-230)"
  rm -rf "$w"
done
