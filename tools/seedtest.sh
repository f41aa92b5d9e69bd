#!/bin/bash
# tools/seedtest.sh <seed-id>...: confirm a planted bug in a scratch copy (tests pass, demo 0 / nonzero) and run its check
for id in "$@"; do
D=/verif/seeded/$id; S=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$S/r"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -r "$D" "$S/d"; rm -f "$S/d/patch.diff" "$S/d/meta.json"
run() { ( cd "$S/r" && PYTHONDONTWRITEBYTECODE=1 HOME=$S timeout 300 bash "$S/d/demo.sh" >"$S/out" 2>&1; echo $? ); }
A=$(run); cd "$S/r" && git apply "$D/patch.diff" || { echo "$id: patch does not apply"; rm -rf -- "$S"; continue; }
B=$(run); tail -1 "$S/out"
T=$(cd "$S/r" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider test/test_variable_importance.py 2>&1 | tail -1)
C=$(cd /verif && VERIF_REPO=$S/r bash check.sh $P quick 2>&1 | grep -E "VIOLATION|^(ok|OK)" | head -1)
echo "$id [$P] demo clean=$A patched=$B | tests: $T | check: ${C:-quiet}"
rm -rf -- "$S"; done
