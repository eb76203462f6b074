#!/bin/bash
# check.sh ID            build from /repo's working tree and run the check of one property (VERIF_TIER, VERIF_SEED)
# check.sh --replay FILE rerun one saved violation
# check.sh --build       build only
# Exit 0: held; 1: VIOLATION line printed; anything else: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
half() {
  case "$1" in
    C0[1-9]|C1[0-2]) echo alg ;;
    C14) echo gram ;;
    C1[3-9]|C2[0-9]|C3[0-5]) echo ast ;;
    *) echo "ERROR unknown property $1" >&2; exit 2 ;;
  esac
}
build() {
  mkdir -p build
  if ! (cd "harness/$1" && CARGO_TARGET_DIR="$VERIF_ROOT/build/$1" cargo build --release --offline --locked) >"build/$1.log" 2>&1; then
    echo "ERROR harness/$1 does not build against /repo:" >&2
    grep -E -A6 '^error' "build/$1.log" | head -40 >&2
    exit 2
  fi
}
case "$1" in
  --build) build alg; build gram; build ast; exit 0 ;;
  --replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    h=$(half "$id") || exit 2
    file=$(realpath "$2")
    build "$h"
    exec "build/$h/release/$h" replay "$file" ;;
  *)
    h=$(half "$1") || exit 2
    build "$h"
    exec "build/$h/release/$h" run "$1" ;;
esac
