#!/bin/bash
# runs the repository's own suite and compares with its baseline
bash /opt/vp/build.sh > /tmp/rtest.build 2>&1 || true
grep -A8 "^error" /tmp/rtest.build | head -60
bash /opt/vp/test.sh /tmp/out.json 2>&1 | tail -1; python3 "$(dirname "$0")/cmp_baseline.py" /tmp/out.json
