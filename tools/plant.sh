#!/bin/bash
# usage: plant.sh ID [CHECK...]: confirm a planted bug in a scratch copy and run checks on it
here="$(cd "$(dirname "$0")/.." && pwd)"
id=$1; shift
D=$here/seeded/$id
W=$(mktemp -d /tmp/wt.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
cd "$W/repo" || exit 2
PY=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=$W/repo/src bash "$D/demo.sh" > "$W/d0" 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$id: does not apply"; exit 1; }
PYTHONPATH=$W/repo/src bash "$D/demo.sh" > "$W/d1" 2>&1; b=$?
echo "$id: demo clean=$a patched=$b"
if [ $a != 0 ]; then tail -5 "$W/d0"; fi
tail -2 "$W/d1"
if [ -z "$NOTEST" ]; then
PYTHONPATH=$W/repo/src:/opt/vp/pytest_plugins timeout 800 $PY -m pytest -q -p pytensor_cache -p no:cacheprovider -n 8 --timeout=600 tests 2>&1 | tail -4
fi
for c in "$@"; do
  VERIF_REPO=$W/repo VERIF_SEED=${VERIF_SEED:-1} bash "$here/run.sh" "$c" > "$W/out" 2>&1; r=$?
  echo "$id: check $c -> $r  $(grep -m1 '"rule"' "$W/out" | cut -c1-200)"
done
