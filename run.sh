#!/bin/bash
# usage: run.sh PROPERTY quick|thorough
# Builds the harness against /repo's working tree and runs one property's check.
. "$(dirname "$0")/tools/env.sh"
prop=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
cd "$VERIF_DIR/harness" || exit 2
case $prop in
  C03|C15G) pkg=vharness; bin=vcore ;;
  C09|C10|C11|C12|C16|C17|C18) pkg=vshipped; bin=vshipped ;;
  *) pkg=vharness; bin=vcore ;;
esac
export RUSTFLAGS="--cfg verif_hooks --check-cfg cfg(verif_hooks) -Awarnings"
log=$(mktemp)
if ! cargo build --offline -p $pkg >"$log" 2>&1; then
  tail -40 "$log" >&2
  rm -f "$log"
  echo "ERROR property=$prop the harness does not build against this tree"
  exit 2
fi
rm -f "$log"
# a runaway allocation ends as an abort of the check's own process
ulimit -v 25000000
exec "target/debug/$bin" "$prop"
