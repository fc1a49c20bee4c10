#!/bin/bash
# replay.sh <file>: runs one recorded case against /repo's working tree; exit 1 if it still fails.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
. tools/env.sh
bash tools/build.sh || { echo "error: cannot build /repo's working tree" >&2; exit 2; }
if grep -q '"property": "C22"' "$f"; then
  bash tools/build-cli.sh || { echo "error: cannot build rexiftool" >&2; exit 2; }
fi
VH_SCRATCH=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 2
export VH_SCRATCH
trap 'rm -rf -- "$VH_SCRATCH"' EXIT
"$CARGO_TARGET_DIR/release/vh" replay "$f"
