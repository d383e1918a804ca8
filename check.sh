#!/bin/bash
# Usage: check.sh <ID> [quick|thorough] | check.sh build | check.sh replay <file>
# Builds the harness against /repo's working tree (two profiles, and a third for C27) and decides one property.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$ROOT/target YMC_ROOT=$ROOT
build() {
  local log=$ROOT/target/build.log
  mkdir -p "$ROOT/target" "$ROOT/replay" "$ROOT/evidence"
  # the counted build adds a call to every basic block; what is linked for the host is left alone
  local count="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc --cfg=ymc_counted"
  for prof in checked release ${1:-}; do
    local flags= target=
    [ $prof = counted ] && flags=$count target="--target x86_64-unknown-linux-gnu"
    if ! (cd harness && RUSTFLAGS=$flags cargo build --offline --locked --profile $prof $target) >"$log" 2>&1; then
      tail -60 "$log" >&2
      echo "ERROR: the harness does not build against /repo" >&2
      exit 2
    fi
  done
}
case "${1:-}" in
  build) build counted; exit 0 ;;
  replay) build counted; exec "$ROOT/target/release/ymc" replay "$2" ;;
  C27) build counted; exec "$ROOT/target/release/ymc" supervise "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
  C[0-9][0-9]) build; exec "$ROOT/target/release/ymc" supervise "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
  *) echo "usage: check.sh <ID> [quick|thorough] | build | replay <file>" >&2; exit 2 ;;
esac
