#!/bin/bash
# Builds the simulator from the committed files and /repo's current tree.
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then here="$PWD"; . /opt/vp/env.sh; cd "$here" || exit 2; fi
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
mkdir -p evidence
cd sim && cargo build --release --offline --quiet
