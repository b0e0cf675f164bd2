#!/bin/bash
# catch.sh [IDs...]: which planted bugs are caught by the check of their property
cd /verif/seeded
one() {
  id=$1
  T=$(mktemp -d /tmp/catch-XXXXXX)
  git -C /repo archive HEAD | tar x -C "$T"
  (cd "$T" && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "$id: does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  r=""
  for c in $p $CHECKS; do
    DSA_EVIDENCE=$T/ev DSA_REPO=$T timeout 900 /usr/bin/python3 /verif/run.py $c > "$T/out-$c" 2>&1; r="$r $c=$?"
    [ "$c" = "$p" ] && u=$(grep -m1 '^NOT DECIDED' "$T/out-$c")
    [ -n "$SHOW" ] && grep -v '^VIOLATION' "$T/out-$c" | head -4
  done
  echo "$id:$r ${u:0:160}"
  rm -rf "$T"
}
export -f one
ids=${@:-$(ls)}
printf '%s\n' $ids | xargs -P 8 -I{} bash -c 'one {}' | sort
