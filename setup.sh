#!/bin/bash
# Builds the harness once from the committed files and fails if it does not build.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/verif-setup.XXXXXX)
rc=0
for s in "$here"/harness/*/suites_test.go; do
  p=$(basename "$(dirname "$s")")
  bash "$here/harness/build.sh" "$p" "$d/$p.test" || rc=1
done
bash "$here/harness/build.sh" core "$d/core-race.test" -race || rc=1
rm -rf "$d"
exit $rc
