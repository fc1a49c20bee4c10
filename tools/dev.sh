#!/bin/bash
# developer helper: build, then run the given properties reporting all failing sub-checks
. "$(dirname "$0")/env.sh"
(cd "$VERIF/harness" && cargo build --release --offline 2>&1 | { ! grep -E "^(warning|error)" -A8; }) || exit 9
for p in "$@"; do VH_ALL=1 VH_TIMES=1 timeout 900 "$CARGO_TARGET_DIR/release/vh" check $p; echo "== $p exit $?"; done
