#!/bin/bash
# detect.sh [id...]: runs the check of each seeded bug's property against a patched copy of /repo
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  w=$(mktemp -d /tmp/det-XXXX); cp -a /repo "$w/repo"
  (cd "$w/repo" && git apply "$OLDPWD/seeded/$d/patch.diff") || { echo "$d: patch does not apply"; rm -r "$w"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  cp evidence/$p.json $w/ev.json 2>/dev/null
  VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO="$w/repo" bash run.sh $p quick > "$w/out" 2>&1; rc=$?
  echo "$d $p rc=$rc $(grep -E 'VIOLATION|violated|refuted' "$w/out" | cut -c1-200 | tr '\n' '|')"
  cp $w/ev.json evidence/$p.json 2>/dev/null
  rm -r "$w"
done
