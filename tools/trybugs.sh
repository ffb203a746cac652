#!/bin/bash
# trybugs.sh [id...]: run the quick check of each planted bug's property on a scratch copy with the bug
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
  d=/tmp/try-$b; rm -rf "$d"; cp -a /repo "$d"; (cd "$d" && git apply "$OLDPWD/seeded/$b/patch.diff") || { echo "$b: does not apply"; continue; }
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$b/meta.json'))['property'])")
  t=$(date +%s)
  out=$(VERIF_REPO=$d VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.sh $p --tier quick ${ARGS:-} 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep VIOLATION | head -2 | tr '\n' ' ')"
  rm -rf "$d"
done
