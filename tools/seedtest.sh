#!/bin/bash
# dev tool: confirm planted bugs in a scratch copy (build, stable tests, demo on both trees), then run the property's check on it
# usage: seedtest.sh ID [check-only]
V=$(cd "$(dirname "$0")/.." && pwd)
if [ "$1" = inner ]; then
  id=$2; sc=$3; mode=$4
  mount --bind $sc /repo || exit 9
  cd /repo
  d=$sc.demo; mkdir -p $d; cp -a $V/seeded/$id/. $d/; find $d -name '*.diff' -delete; rm -f $d/meta.json
  if [ "$mode" != check-only ]; then
    bash /opt/vp/build.sh >$sc.log 2>&1
    bash $d/demo.sh >$sc.demo0.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 $sc.demo0.log; }
  fi
  git apply $V/seeded/$id/patch.diff || { echo "patch does not apply"; exit 1; }
  if [ "$mode" != check-only ]; then
    bash /opt/vp/test.sh $sc.json >$sc.log 2>&1 || { echo "BUILD FAILS"; tail -5 $sc.log; }
    python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$sc.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('tests:', 'ok' if not m else 'MISSING %s' % m[:5])"
    timeout 300 bash $d/demo.sh >$sc.demo1.log 2>&1 && echo "demo patched: PASSES (bad)" || { echo "demo patched: fails (good)"; tail -2 $sc.demo1.log; }
  fi
  prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  cd $V; ./check.py $prop quick 2>&1 | tail -6
  exit 0
fi
id=$1; sc=/tmp/sc_$id
echo "== $id"
cp -a /repo $sc
unshare -Urm bash $V/tools/seedtest.sh inner $id $sc $2
rm -rf /tmp/sc_$id /tmp/sc_$id.demo /tmp/sc_$id.log /tmp/sc_$id.json /tmp/sc_$id.demo0.log /tmp/sc_$id.demo1.log
