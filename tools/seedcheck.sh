#!/bin/bash
# runs each seeded bug's check against a patched scratch copy: tools/seedcheck.sh [id...]
cd /verif
ids=${@:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  rm -rf /tmp/seedrun; cp -a --reflink=auto /repo /tmp/seedrun; rm -rf /tmp/seedrun/_build
  git -C /tmp/seedrun apply /verif/seeded/$id/patch.diff || { echo "$id patch fails"; continue; }
  out=$(python3 check.py $p --repo /tmp/seedrun 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION property='"$p")"
done
rm -rf /tmp/seedrun
