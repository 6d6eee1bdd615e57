#!/bin/bash
# tools/seeds.sh [ID...]: run every check a planted bug is aimed at (ALL=1: every claimed check) on a copy with it
cd "$(dirname "$0")/.."
for d in seeded/${1:-*}; do
  i=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedXXXX); cp -a /repo/include /repo/src /repo/cmake /repo/CMakeLists.txt /repo/VERSION /repo/vcpkg.json /repo/ports $w/ 2>/dev/null
  (cd $w && patch -s -p1 < /verif/$d/patch.diff) || echo "PATCH FAILS"
  for c in ${CHECKS:-$p}; do
    VERIF_REPO=$w timeout 900 python3 check.py $c > /tmp/seed.out 2>&1; rc=$?
    echo "$i $c rc=$rc $(grep -c '^VIOLATION' /tmp/seed.out) $(grep -m1 violated: /tmp/seed.out | cut -c1-120)"
  done
  rm -rf "$w"
done
