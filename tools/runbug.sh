#!/bin/bash
# runbug.sh BUG [args]: run the bug's property check against a scratch copy of /repo with the bug applied
b=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
git -C /repo archive HEAD | tar x -C "$t"; git -C "$t" init -q; git -C "$t" apply /verif/seeded/$b/patch.diff || exit 3
cd /verif; cp evidence/$p.json "$t/ev" 2>/dev/null
VERIF_REPO=$t python3 check.py $p "$@"; rc=$?
cp "$t/ev" evidence/$p.json 2>/dev/null
echo "== $b $p rc=$rc"
