#!/bin/bash
# tools/mutant.sh PATCH CHECK...: run checks against a scratch copy of /repo with PATCH applied (development aid)
set -e
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$D"' EXIT
git -C "${KPSR_REPO:-/repo}" archive HEAD | tar x -C "$D"
(cd "$D" && git init -q . && git apply "$P")
for c in "$@"; do
    KPSR_REPO="$D" KSIM_BUILD="$D/.build" python3 "$(dirname "$0")/run_check.py" "$c" | cut -c1-400 || true
done
