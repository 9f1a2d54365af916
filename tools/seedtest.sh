#!/bin/bash
# seedtest ID : verify patch in a scratch copy (build, tests, demo both ways), then run the property's check against /repo patched
id=$1; d=/verif/seeded/$id
S=/tmp/seedrepo
[ -d $S ] || { cp -a /repo $S; }
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD 2>/dev/null && git -C $S reset -q --hard FETCH_HEAD
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd $S
. /opt/vp/env.sh
bash $d/demo.sh >/tmp/seed.demo0 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
cargo test --workspace --offline --features json --no-fail-fast -- --test-threads 8 > /tmp/seed.tests 2>&1; t=$?
bash $d/demo.sh >/tmp/seed.demo1 2>&1; b=$?
git checkout -q -- .
fails=$(grep "^test .*FAILED" /tmp/seed.tests | grep -v "main_wz_object\|test result" | wc -l)
echo "$id: demo clean=$a patched=$b tests rc=$t failed=$fails"
[ "$2" = nocheck ] && exit
git -C /repo apply $d/patch.diff || exit 1
cd /verif
for p in ${CHECKS:-$prop}; do
WZPBT_NO_EVIDENCE=1 VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./run.sh $p > /tmp/seed.check 2>&1; c=$?
echo "   check $p rc=$c $(grep VIOLATION /tmp/seed.check | head -2)"
done
git -C /repo checkout -q -- .
