#!/bin/bash
# Runs checks against a scratch copy of /repo with a patch applied.
# usage: try.sh PATCH CHECK...
set -u
D=$(mktemp -d /tmp/try.XXXXXX)
mkdir "$D/r"
git -C /repo archive HEAD | tar -x -C "$D/r"
(cd "$D/r" && git init -q . 2>/dev/null && git apply "$1") || { echo "patch does not apply"; rm -rf "$D"; exit 9; }
shift
B=${TRY_BUILD:-/tmp/try.build}
mkdir -p "$B"
rc=0
for c in "$@"; do
  VERIF_REPO="$D/r" VERIF_BUILD="$D/b" python3 "$(dirname "$0")/../check.py" $c 2>"$D/err" | grep -a "VIOLATION\|^OK\|space" | head -2 | cut -c1-300 || true
done
rm -rf "$D"
