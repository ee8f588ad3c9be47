#!/bin/bash
# tryseed.sh ID... : in a private copy of /repo (own mount namespace), does each planted bug build, pass the stable tests, and fail its demo, and is it caught?
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$V/seeded/$id; C=$(mktemp -d /tmp/rc.XXXXXX); cp -a /repo/. $C/
  unshare -m bash -c '
    mount --bind '$C' /repo && cd /repo && git checkout -q -- . && git apply '$S'/patch.diff || { echo "'$id': patch does not apply"; exit; }
    git apply -R '$S'/patch.diff; bash /opt/vp/build.sh nolua >/dev/null 2>&1; bash '$S'/demo.sh > '$C'/demo0.log 2>&1; d0=$?; git apply '$S'/patch.diff
    bash /opt/vp/build.sh nolua > '$C'/b.log 2>&1 || { echo "'$id': build failed"; tail -5 '$C'/b.log; exit; }
    bash '$S'/demo.sh > '$C'/demo1.log 2>&1; d1=$?
    t="-"; if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh '$C'/t.json > /dev/null 2>&1; t=$(python3 -c "
import json; b=json.load(open(\"/opt/vp/BASELINE.json\")); b=b.get(\"stable\") or b.get(\"tests\") or b.get(\"passed\") or b; r=json.load(open(\"'$C'/t.json\")); print(\"FAILED \"+\"; \".join(x for x in b if x not in r[\"passed\"]) if [x for x in b if x not in r[\"passed\"]] else \"pass\")"); fi
    p=$(python3 -c "import json; print(json.load(open(\"'$S'/meta.json\"))[\"property\"])")
    c="-"; if [ -z "$NOCHECK" ]; then cd '$V' && python3 check.py $p quick > '$C'/c.log 2>&1; c=$?; fi
    echo "'$id': demo clean=$d0 patched=$d1 tests=$t check=$c $(grep -m1 violated: '$C'/c.log 2>/dev/null | cut -c1-150)"; [ $d0 != 0 ] && tail -5 '$C'/demo0.log'
  rm -rf "$C"
done
