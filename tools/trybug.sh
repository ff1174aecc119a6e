#!/bin/bash
# usage: trybug.sh BUG [PROP...]   applies seeded/BUG to /repo, runs the checks (default: its own property), restores
here=$(cd "$(dirname "$0")/.." && pwd)
b=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$here/seeded/$b/meta.json'))['property'])")}
git -C /repo apply "$here/seeded/$b/patch.diff" || { echo "$b: patch does not apply"; exit 3; }
trap 'git -C /repo checkout -- .' EXIT
for p in $props; do
  t=$(date +%s); out=$("$here/check.sh" $p 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep '^FAIL' | head -1 | cut -c1-140)"
done
