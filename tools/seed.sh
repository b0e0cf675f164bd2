#!/bin/bash
# seed.sh ID [check IDs...]: confirms a planted bug and runs checks against it,
# all in a scratch copy of /repo
id=$1; shift
S=/verif/seeded/$id
T=$(mktemp -d /tmp/seed-XXXXXX)
cp -a /repo "$T/repo"
cd "$T/repo" || exit 9
L=$(mktemp -d /tmp/seedd-XXXXXX); cp "$S"/* "$L"; rm -f "$L"/*.diff "$L"/meta.json
bash "$L/demo.sh" >"$T/a" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$T" "$L"; exit 9; }
bash "$L/demo.sh" >"$T/b" 2>&1; b=$?
t=skipped
if [ -z "$NOTEST" ]; then
  /opt/venv/bin/python -m pytest -q tests >"$T/t" 2>&1; t=$?
fi
echo "$id: clean=$a patched=$b tests=$t"
[ $a != 0 ] && tail -5 "$T/a"
[ -n "$SHOW" ] && tail -5 "$T/b"
[ $b = 0 ] && tail -5 "$T/b"
[ "$t" != 0 ] && [ "$t" != skipped ] && tail -5 "$T/t"
for c in "$@"; do
  DSA_REPO="$T/repo" /usr/bin/python3 /verif/run.py $c > "$T/c" 2>&1; echo "   check $c -> $?"; grep -v '^VIOLATION' "$T/c" | head -${LINES_:-3}
done
rm -rf "$T" "$L"
