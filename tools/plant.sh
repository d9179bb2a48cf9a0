#!/bin/bash
# plant.sh ID [CHECKID..] : confirms a planted change (suite passes, demo fails with it and
# passes without it), then runs the named checks against it. /repo is restored afterwards.
ID=$1; shift
D=/verif/seeded/$ID
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git apply --check $D/patch.diff || exit 2
git apply $D/patch.diff
if [ -z "$NOSUITE" ]; then /verif/tools/rtest.sh 2>&1 | tail -4; fi
bash $D/demo.sh > /tmp/plant.demo 2>&1; r1=$?
tail -3 /tmp/plant.demo
for c in "$@"; do
  (cd /verif; timeout 900 ./run.sh check $c > /tmp/plant.$c 2>&1; echo "check $c exit $?"; grep -m3 VIOLATION /tmp/plant.$c)
done
git checkout -q -- .
bash $D/demo.sh > /tmp/plant.demo0 2>&1; r0=$?
[ $r0 = 0 ] || tail -5 /tmp/plant.demo0
echo "plant $ID: demo with patch $r1 (want nonzero), without $r0 (want 0)"
