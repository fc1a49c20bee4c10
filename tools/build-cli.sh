#!/bin/bash
# Builds rexiftool from /repo's working tree into target/cli (uninstrumented).
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
unset RUSTC_WRAPPER
export CARGO_TARGET_DIR="$VERIF/target/cli"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
sum=$(cd /repo && find Cargo.toml Cargo.lock src crates -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
stamp="$CARGO_TARGET_DIR/.repo-sum"
export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true
cd /repo || exit 2
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  rm -f "$stamp"
  cargo clean --offline --release -p nom-exif -p rexiftool >/dev/null 2>&1
fi
log=$(cargo build --release --locked --offline -p rexiftool 2>&1) || { printf '%s\n' "$log" | tail -40 >&2; exit 2; }
printf '%s\n' "$sum" > "$stamp"
exit 0
