#!/bin/bash
# exit 0 when the library behaves, nonzero otherwise. Run in /repo after the build.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
python3 /opt/vp/overlay.py && (cd /opt/vp/overlay && cargo build -q --offline --features $FEATURES 2>/dev/null) || exit 3
rustc --edition 2021 -A warnings -o "$W/demo" "$HERE/demo.rs" \
  --extern rinex=/repo/target/debug/librinex.rlib -L dependency=/repo/target/debug/deps || exit 3
cd "$W" && timeout 120 "$W/demo"
