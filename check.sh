#!/bin/bash
# check.sh PROPERTY quick|thorough : rebuild the monitor against /repo's working tree and run one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CCMON_ROOT="$here"
cd "$here/harness" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
mkdir -p target
log=target/build-$1-$$.log
if ! cargo build --release --offline -q >"$log" 2>&1 &&
   { [ "$1" = C26 ] || ! cargo build --release --offline -q --no-default-features >"$log" 2>&1; }; then
  echo "INCONCLUSIVE property=$1: the monitor does not build against /repo"
  grep -A12 -E '^error' "$log" | head -60
  rm -f "$PWD/$log"
  exit 2
fi
rm -f "$PWD/$log"
exec ./target/release/ccmon check "$1" "${2:-quick}"
