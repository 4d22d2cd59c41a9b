# sourced: build environment of the harness (offline, own target folder, PATH to the toolchain)
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export PROTOC=/usr/bin/protoc
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER RUST_BACKTRACE RUST_LIB_BACKTRACE
SIM_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTC_WRAPPER="$SIM_DIR/rustc-wrap.sh"
export CARGO_TARGET_DIR="${SIM_TARGET:-$SIM_DIR/target}"
