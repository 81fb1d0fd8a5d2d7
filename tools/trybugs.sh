#!/bin/bash
# trybugs.sh [id...]: run each seeded bug's check against a scratch copy of /repo
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/trybug.XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
for i in ${@:-$(ls $V/seeded)}; do
  git -C $W/repo checkout -q -- . && git -C $W/repo apply $V/seeded/$i/patch.diff || { echo "$i patch fails"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  DV_REPO=$W/repo python3-vt $V/check.py $P > $W/out 2>/dev/null; rc=$?
  echo "$i $P rc=$rc $(grep -c . $W/out) $(grep VIOLATION $W/out | sed 's/replay=[^ ]*//') $(grep -E 'failed|unknown|error|timeout' $W/out | head -2 | cut -c1-200 | tr '\n' ';') $(tail -1 $W/out | cut -c1-160)"
done
