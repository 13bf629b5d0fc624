#!/bin/bash
# run.sh COPY [ids]: runs the quick checks against a scratch copy of /repo and prints those that are not quiet or not complete
cd /verif
d=$1; shift
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for p in "$@"; do
  s=$(date +%s); GOSYM_REPO=$d timeout 900 bin/gosym check $p quick > /tmp/ref_$p.log 2>&1; rc=$?; e=$(date +%s)
  echo "$p rc=$rc $((e-s))s $(grep -oE '^[a-z]+\.[A-Za-z]+:.*unsupported=[1-9][0-9]*' /tmp/ref_$p.log | tr '\n' ' ') $(grep -oE 'limited=[1-9][0-9]*|stop="[^"]+"' /tmp/ref_$p.log | sort | uniq -c | tr '\n' ' ') $(grep VIOLATION /tmp/ref_$p.log | head -1) $(grep unconfirmed /tmp/ref_$p.log | head -1 | cut -c1-200)"
done
