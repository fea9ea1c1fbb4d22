#!/bin/bash
. "$(dirname "$0")/tools/env.sh"
cd "$VERIF_DIR/harness" || exit 1
export RUSTFLAGS="--cfg verif_hooks --check-cfg cfg(verif_hooks) -Awarnings"
cargo build --offline 2>&1 | tail -5
exit ${PIPESTATUS[0]}
