#!/bin/bash
# Confirms planted bugs in scratch copies: tools/plant.sh ID...  (builds, stable tests, demo with and without)
V=/verif
one() {
  id=$1; d=/tmp/plant/$id
  rm -rf "/tmp/plant/$id"; mkdir -p $d
  cp -a /repo $d/repo
  mkdir $d/vp; for f in build.sh lazy_dlopen.py results.py run_pytest.py test.sh BASELINE.json BUILD.json; do
    sed -e "s#/repo#$d/repo#g" -e "s#/opt/vp#$d/vp#g" /opt/vp/$f > $d/vp/$f; done
  cp -a $V/seeded/$id $d/seed; sed -i "s#/repo#$d/repo#g; s#/opt/vp#$d/vp#g" $d/seed/demo.sh
  for f in $d/seed/*.py; do [ -f "$f" ] && sed -i "s#/repo#$d/repo#g; s#/opt/vp#$d/vp#g" $f; done
  rm -rf $d/repo/_build
  (bash $d/vp/build.sh) > $d/build0.log 2>&1 || { echo "$id: base build failed"; return; }
  (cd $d/repo; timeout 300 bash $d/seed/demo.sh) > $d/demo0.log 2>&1; r0=$?
  git -C $d/repo apply $d/seed/patch.diff || { echo "$id: does not apply"; return; }
  (bash $d/vp/build.sh) > $d/build1.log 2>&1 || { echo "$id: build failed"; return; }
  (cd $d/repo; timeout 300 bash $d/seed/demo.sh) > $d/demo1.log 2>&1; r1=$?
  (bash $d/vp/test.sh $d/t.json) > $d/test.log 2>&1
  t=$(python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); b=set(json.load(open('$d/t.json'))['passed'])
print(len(s&b), 'of', len(s), sorted(s-b))
P
)
  echo "$id: demo $r0 -> $r1; stable tests $t"
  rm -rf "/tmp/plant/$id/repo"
}
export -f one; export V
printf '%s\n' "$@" | xargs -P ${PLANT_JOBS:-4} -I{} bash -c 'one {}'
