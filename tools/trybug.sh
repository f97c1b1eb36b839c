#!/bin/bash
# trybug.sh SEED [PROP...]: applies a planted bug to /repo, runs the checks, undoes it.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$here/seeded/$id/patch.diff" || exit 2
for p in $props; do
  out=$(cd "$here" && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 run.py "$p" quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -E '^(failing|VIOLATION|P|build)' | cut -c1-220 | head -1)"
done
git -C /repo checkout -q -- .
