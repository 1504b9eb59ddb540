#!/bin/bash
# usage: tools/trybugs.sh [id...] : applies each planted bug to a scratch copy of /repo, runs the check of its property against it
cd "$(dirname "$0")/.." || exit 3
w=$(mktemp -d /tmp/bugs.XXXXXX)
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  rm -rf "$w/r"; cp -a /repo "$w/r"; rm -rf "$w/r/.git"
  (cd "$w/r" && git apply --unsafe-paths "$OLDPWD/seeded/$d/patch.diff" 2>/dev/null || patch -s -p1 < "$OLDPWD/seeded/$d/patch.diff") || { echo "$d: does not apply"; continue; }
  s=$(date +%s); out=$(VF_REPO=$w/r bin/check $p 2>&1); rc=$?
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep '^VIOLATION' | head -1) $(echo "$out" | grep -c UNDECIDED)"
done
rm -rf "$w"
