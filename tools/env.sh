# environment for building the harness (never changes the working directory)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export VERIF_DIR="${VERIF_DIR:-/verif}"
