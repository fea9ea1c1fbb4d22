#!/bin/bash
# developer helper: build and run one check, showing one line per distinct failure
cd /verif/harness && . /verif/tools/env.sh && export RUSTFLAGS="--cfg verif_hooks --check-cfg cfg(verif_hooks) -Awarnings"; cargo build --offline -p ${PK:-vharness} 2>&1 | grep -E "^error|-->" -A6 | head -${EL:-60}
ulimit -v 25000000
VERIF_KEEP_GOING=1 timeout ${T:-600} ./target/debug/${B:-vcore} "$1" 2>&1 | cut -c1-${W:-700}
