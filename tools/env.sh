# Sourced by every script of /verif: toolchain, offline cargo, build folder.
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0 TZ=UTC
unset RUSTFLAGS RUST_LOG CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF
export CARGO_TARGET_DIR="$VERIF/target"
export RUSTC_WRAPPER="$VERIF/tools/rustc-wrap.sh"
export VH_CLI="$VERIF/target/cli/release/rexiftool"
