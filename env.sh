# Sourced by every script: one offline toolchain for all builds.
export RUSTUP_TOOLCHAIN=nightly-2025-04-20 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_SEED="${VERIF_SEED:-1}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE
