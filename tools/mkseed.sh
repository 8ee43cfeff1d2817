#!/bin/bash
# usage: mkseed.sh ID   -- /verif/seeded/ID has meta.json, demo_test.go(s), demo.sh
# and the change is currently applied (uncommitted) in the scratch copy /tmp/sd.
# Confirms: builds, stable tests of the touched packages pass, demo fails with / passes without;
# then runs the property's check against the scratch copy, which is left clean.
set -u
id=$1; d=/verif/seeded/$id; sc=${SC:-/tmp/sd}
git -C $sc diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo apply --check $d/patch.diff || exit 1
echo "== tests with the change"
( . /opt/vp/env.sh; cd $sc && go build $(packages) && go test -vet=off $(cat /verif/tools/testpkgs) 2>&1 | grep -E "^(ok|FAIL|---)" | grep -v "^ok" | tail -15; exit ${PIPESTATUS[0]} ) || { echo TESTS-FAIL; exit 1; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd $sc && bash $d/demo.sh) > /tmp/demo1.log 2>&1; r1=$?
( cd /verif && GOVC_REPO=$sc ./check.sh $p > /tmp/chk.$id.log 2>&1 ); rc=$?
git -C $sc checkout -q -- .
(cd $sc && bash $d/demo.sh) > /tmp/demo0.log 2>&1; r0=$?
echo "demo clean=$r0 patched=$r1 (want 0, nonzero); check $p exit=$rc"; grep -h VIOLATION /tmp/chk.$id.log
[ $r0 = 0 ] && [ $r1 != 0 ] || tail -20 /tmp/demo0.log /tmp/demo1.log
