#!/bin/bash
# check.sh ID TIER       build the simulator against /repo's current tree, then run one property
# check.sh setup         build only
# check.sh replay FILE   re-execute a replay file
#
# C16 runs in a second build, in which the compiler calls the scheduler at every edge of the control
# flow and every store in gpf (tools/cov-rustc, hook/).
. /opt/vp/env.sh
unset RUSTFLAGS SIM_COV_EXTRA
mkdir -p /verif/target
cd /verif/sim || exit 3

plain() {
  export CARGO_TARGET_DIR=/verif/target RUSTC_WRAPPER=
  bin=/verif/target/debug/gpfsim
  cargo build --offline -q 2>/verif/target/build.log && return
  cargo build --offline 2>&1 | tail -40
  echo "build failed"
  exit 3
}
inside() {
  export CARGO_TARGET_DIR=/verif/target/inside RUSTC_WRAPPER=/verif/tools/cov-rustc
  bin=/verif/target/inside/debug/gpfsim
  cargo build --offline -q 2>/verif/target/build-inside.log && return
  echo "no instrumented build: scheduling points at allocations and waits only"
  plain
}

case "$1" in
  setup) plain; inside; exit 0 ;;
  replay)
    if grep -q '^property C16' "$2"; then inside; else plain; fi
    exec $bin replay "$2" ;;
  C16) inside ;;
  *) plain ;;
esac
exec $bin check "$1" "${2:-${VERIF_TIER:-quick}}"
