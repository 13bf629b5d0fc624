#!/bin/bash
# tools/catch.sh [ids]: applies each planted bug to a scratch copy of /repo, runs the quick check of its property there
# (GOSYM_REPO) and notes the result in tools/planted.txt. Bugs run two at a time.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
one() {
  i=$1; w=/tmp/catch_w_$i
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  rm -rf "$w"; cp -a /repo "$w"
  git -C "$w" apply /verif/seeded/$i/patch.diff || { echo "$i APPLY"; rm -rf "$w"; return; }
  s=$(date +%s); GOSYM_REPO=$w timeout 900 bin/gosym check $p quick > /tmp/catch_$i.log 2>&1; rc=$?; e=$(date +%s)
  rm -rf "$w"
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/catch_$i.log; then r=caught; else r=MISSED; fi
  echo "$i $p $r rc=$rc $((e-s))s"
}
export -f one
printf '%s\n' "$@" | xargs -P 2 -I{} bash -c 'one {}' | tee /tmp/catch.out
touch tools/planted.txt
while read i p r _; do sed -i "/^$i /d" tools/planted.txt; echo "$i $p $r" >> tools/planted.txt; done < /tmp/catch.out
sort -o tools/planted.txt tools/planted.txt
