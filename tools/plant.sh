#!/bin/bash
# tools/plant.sh ID [--nocheck]: confirms the planted bug seeded/ID in a scratch copy of /repo (the demo passes unchanged; with the patch it builds, the tests pass and the demo fails), then runs its property's check on the copy
set -u; id=$1; S=/verif/seeded/$id; T=/tmp/w/plant; export CC=/usr/bin/gcc CXX=/usr/bin/g++; mkdir -p /tmp/w
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ ! -d $T ]; then cp -a /repo $T && rm -rf $T/_build && cmake -S $T -B $T/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1 -g" -DCMAKE_CXX_FLAGS="-Wno-error -include cstdint" -DCMAKE_MODULE_PATH=/opt/vp/cmake -DENABLE_TESTING=ON -DENABLE_TESTING_THREADSAFETY=ON >/dev/null && ninja -C $T/_build -j8 >/dev/null; fi
git -C $T checkout -q -- . ; git -C $T pull -q /repo HEAD 2>/dev/null; git -C $T reset -q --hard "$(git -C /repo rev-parse HEAD)"
git -C $T apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
ninja -C $T/_build -j8 > /tmp/w/build.log 2>&1 || { echo "$id: does not build"; grep error /tmp/w/build.log | head -5; git -C $T checkout -q -- .; exit 1; }
out=$(cd $T/_build && timeout 120 ./blackhole-tests --gtest_filter='-*DISABLED*' 2>&1 | grep -E '^\[  (FAILED|PASSED)' | sort -u | head -20); echo "$id: tests: $(echo "$out" | tr '\n' ' ')"
for t in assign filter; do (cd $T/_build && timeout 100 ./blackhole-tests-rc-$t 8 20000 >/dev/null) || echo "$id: rc-$t fails"; done
( cd $T && timeout 300 bash $S/demo.sh >/tmp/w/demo-$id.bad 2>&1 ); bad=$?; ( cd /repo && timeout 300 bash $S/demo.sh >/tmp/w/demo-$id.good 2>&1 ); good=$?
echo "$id: demo unchanged=$good patched=$bad $(tail -1 /tmp/w/demo-$id.bad | cut -c1-150)"
if [ "${2:-}" != --nocheck ]; then s=$SECONDS; VERIF_REPO=$T python3 /verif/check.py $prop > /tmp/w/check-$id.log 2>&1; rc=$?; echo "$id: check $prop rc=$rc in $((SECONDS-s)) s: $(grep -m1 -E 'violation:|PROBLEM|ERROR' /tmp/w/check-$id.log | cut -c1-220)"; fi
git -C $T checkout -q -- .
