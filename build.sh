#!/bin/bash
# Builds the simulator against /repo's current working tree. Writes only below /verif/.build.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
python3 tools/overlay.py .build/rinex
cd sim
exec env RUSTFLAGS="-Awarnings" CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/.build/target cargo build --release --offline -q "$@"
