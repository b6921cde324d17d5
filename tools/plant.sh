#!/bin/bash
# usage: tools/plant.sh ID...    confirms planted bugs of /verif/seeded in scratch copies of /repo, and runs their checks on them
set -u
W=${PLANT_DIR:-/tmp/bugs}
mkdir -p $W
prep() { # dir
  rm -rf "$W/$1"; mkdir -p "$W/$1"
  cp -a /repo/. "$W/$1/"
  rm -rf "$W/$1/_build/report"
  sed "s,^repo=.*,repo=$W/$1," /opt/vp/build.sh > $W/$1.build.sh
  sed "s,/repo/,$W/$1/,g; s,/opt/vp/build.sh,$W/$1.build.sh," /opt/vp/test.sh > $W/$1.test.sh
}
if [ ! -d $W/clean ] || [ "$(git -C $W/clean rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then
  prep clean; bash $W/clean.build.sh > $W/clean.log 2>&1 || { echo "clean build failed"; exit 1; }
fi
for id in "$@"; do
  s=${SEEDS:-/verif/seeded}/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  prep $id
  git -C $W/$id apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash $W/$id.build.sh > $W/$id.log 2>&1 || { echo "$id: does not build"; tail -5 $W/$id.log; continue; }
  bash $W/$id.test.sh $W/$id.json > $W/$id.log 2>&1
  python3 - <<P || { echo "$id: tests fail"; cat $W/$id.json; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=set(json.load(open('$W/$id.json'))['passed'])
sys.exit(0 if b<=d else 1)
P
  rm -rf $W/demo-$id; mkdir -p $W/demo-$id; cp -a $s/. $W/demo-$id/; rm -f $W/demo-$id/*.diff $W/demo-$id/meta.json
  (cd $W/clean && timeout 300 bash $W/demo-$id/demo.sh > $W/$id.demo0 2>&1); a=$?
  (cd $W/$id && timeout 300 bash $W/demo-$id/demo.sh > $W/$id.demo1 2>&1); b=$?
  r="demo clean=$a patched=$b"
  if [ -z "${NOCHECK:-}" ]; then
    for c in $p ${ALSO:-}; do
      VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=$W/$id VERIF_BUILD=$W/build-$id timeout 900 ${VERIFDIR:-/verif}/bin/check $c quick > $W/$id.check 2>&1
      r="$r; $c: exit $? $(grep -c ^VIOLATION $W/$id.check) violations, $(grep -o 'violations, [0-9.]* s' $W/$id.check | tail -1)"
    done
  fi
  echo "$id: $r"
  rm -rf $W/$id $W/build-$id $W/demo-$id
done
