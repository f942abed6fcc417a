#!/bin/bash
# check.sh <property>       run one check (VERIF_SEED, VERIF_TIER from the environment)
# check.sh replay <file>    run a replay file again
# check.sh setup            build only
# Builds the simulator against /repo's current working tree first. Everything is written below
# /verif/sim/target, /verif/evidence and /verif/replays.
set -u
cd "$(dirname "$0")/sim" || exit 2
ulimit -v 6291456 2>/dev/null   # a runaway allocation in the code under test ends its worker, not the sandbox
ulimit -c 0
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cap-lints warn -Awarnings"
unset RUST_BACKTRACE CARGO_TARGET_DIR CARGO_BUILD_TARGET
if rustup toolchain list 2>/dev/null | grep -q '^stable-x86_64'; then
  export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
fi
# N04 compares builds of another program (feat/feat.py); a replay file says which kind it is.
FEAT=$(dirname "$PWD")/feat/feat.py
case "${1:-}" in
  N04) exec python3 "$FEAT" check ;;
  replay)
    case "$2" in /*) F=$2 ;; *) F=$OLDPWD/$2 ;; esac
    if head -n 1 "$F" 2>/dev/null | grep -q '^feat '; then exec python3 "$FEAT" replay "$F"; fi ;;
esac
T=$PWD/target
mkdir -p "$T"
(
  flock 9
  cargo build --offline --locked -q --profile checked --target-dir "$T" >"$T/checked.log" 2>&1 &
  p=$!
  cargo build --offline --locked -q --release --target-dir "$T/r" >"$T/release.log" 2>&1
  a=$?
  wait $p
  b=$?
  if [ $a != 0 ] || [ $b != 0 ]; then
    cat "$T/release.log" "$T/checked.log" >&2
    exit 1
  fi
  mkdir -p "$T/bin/release" "$T/bin/checked"
  cp -f "$T/r/release/dst" "$T/bin/release/dst.new" && mv -f "$T/bin/release/dst.new" "$T/bin/release/dst"
  cp -f "$T/checked/dst" "$T/bin/checked/dst.new" && mv -f "$T/bin/checked/dst.new" "$T/bin/checked/dst"
) 9>"$T/lock" || { echo "build failed" >&2; exit 2; }
case "${1:-}" in
  setup) exec python3 "$FEAT" setup ;;
  replay) exec env VERIF_ROOT="$(dirname "$PWD")" "$T/bin/release/dst" replay "$F" ;;
  *) exec env VERIF_ROOT="$(dirname "$PWD")" "$T/bin/release/dst" check "$1" ;;
esac
