#!/bin/bash
# usage: try_seed.sh SEED_DIR  -- in a scratch copy of /repo: apply the patch, run its tests and demo (and the demo on the clean copy)
# prints PASS/FAIL lines; leaves nothing behind.
V=$(cd "$(dirname "$0")/.." && pwd); S=$(realpath "$1"); W=$(mktemp -d /tmp/seedXXXX); trap 'rm -rf "$W"' EXIT
cp -a ${RT_REPO:-/repo} "$W/r"; cd "$W/r"; git checkout -q -- .
export PYTHONPATH="$W/r" PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
mkdir "$W/d"; cp -r "$S"/. "$W/d/"; rm -f "$W/d"/*.diff "$W/d/meta.json"
timeout 300 bash "$W/d/demo.sh" >"$W/clean.log" 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAIL"; tail -5 "$W/clean.log"; }
git apply "$S/patch.diff" || { echo "patch does not apply"; exit 1; }
timeout 300 bash "$W/d/demo.sh" >"$W/bug.log" 2>&1 && echo "demo patched: NOT DETECTED" || echo "demo patched: fails as wanted ($(tail -1 "$W/bug.log" | cut -c1-150))"
if [ "$2" != notest ]; then
sed -e "s#/repo#$W/r#g" /opt/vp/test.sh > "$W/test.sh"
bash "$W/test.sh" "$W/out.json" >"$W/test.log" 2>&1
python3 $V/tools/cmp_tests.py "$W/out.json"
fi
