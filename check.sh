#!/bin/bash
# check.sh <property>: builds from /repo's working tree and decides one property.
# VERIF_SEED and VERIF_TIER (quick|thorough) come from the environment.
cd "$(dirname "$0")" || exit 2
. tools/env.sh
bash tools/build.sh || { echo "error: cannot build /repo's working tree" >&2; exit 2; }
if [ "$1" = C22 ]; then
  bash tools/build-cli.sh || { echo "error: cannot build rexiftool" >&2; exit 2; }
fi
VH_SCRATCH=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 2
export VH_SCRATCH
trap 'rm -rf -- "$VH_SCRATCH"' EXIT
"$CARGO_TARGET_DIR/release/vh" check "$1"
