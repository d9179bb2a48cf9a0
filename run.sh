#!/bin/bash
# run.sh check ID | replay FILE | one ID RUN | digests ID N | list
cd "$(dirname "$0")"
./build.sh >/tmp/rnxsim-build.$$ 2>&1 || { cat /tmp/rnxsim-build.$$; rm -f /tmp/rnxsim-build.$$; echo "BUILD FAILED"; exit 2; }
rm -f /tmp/rnxsim-build.$$
exec .build/target/release/rnxsim "$@"
