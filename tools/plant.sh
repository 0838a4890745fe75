#!/bin/bash
# usage: plant.sh <seed-id> <property>   (/repo holds the uncommitted change, seeded/<id>/demo.sh exists) - development aid
set -u
ID=$1; PROP=$2; D=/verif/seeded/$ID
git -C /repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 2; }
T=$(bash /tmp/regress.sh 2>&1 | tail -1); echo "with patch: $T"
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/demo.out 2>&1); R1=$?; tail -2 /tmp/demo.out
(cd /verif && timeout 900 ./check $PROP quick > /tmp/check.out 2>&1); C1=$?; grep -m2 -a VIOLATION /tmp/check.out
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/build.log 2>&1
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/demo0.out 2>&1); R0=$?
echo "demo with=$R1 without=$R0 check=$C1"; [ $R0 = 0 ] || tail -5 /tmp/demo0.out
