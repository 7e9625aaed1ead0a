#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the simulator with /repo's current code and decides one property.
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then here="$PWD"; . /opt/vp/env.sh; cd "$here" || exit 2; fi
export CARGO_NET_OFFLINE=true SIM_ROOT="$PWD"
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
( cd sim && cargo build --release --offline --quiet ) || { echo "build failed" >&2; exit 2; }
exec sim/target/release/sim check "$1" "${2:-${VERIF_TIER:-quick}}"
