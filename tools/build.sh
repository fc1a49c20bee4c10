#!/bin/bash
# Builds the harness (and with it the crate under test) from /repo's working tree.
# Exit 0: built. Anything else: the tree does not build, which is an error, not a verdict.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
# Cargo judges staleness by time stamps, which a copied tree may not keep: go by contents.
sum=$(cd /repo && find Cargo.toml src crates -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
stamp="$CARGO_TARGET_DIR/.repo-sum"
cd "$VERIF/harness" || exit 2
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  rm -f "$stamp"
  cargo clean --offline --release -p nom-exif >/dev/null 2>&1
fi
log=$(cargo build --release --offline 2>&1) || { printf '%s\n' "$log" | tail -40 >&2; exit 2; }
printf '%s\n' "$sum" > "$stamp"
exit 0
