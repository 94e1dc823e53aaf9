#!/bin/bash
# try_demos.sh ID...: builds a scratch copy of /repo with each planted bug and runs the demo without and with it
s=/tmp/verif-demo-$$
r=${VERIF_REPO:-/repo}; sd=${VERIF_SEEDED:-/verif/seeded}
cp -a $r $s || exit 2
# the build directory refers to /repo by absolute path: configure afresh
sed "s#/repo#$s#g" /opt/vp/build.sh > $s.build.sh
rm -r $s/_build
bash $s.build.sh > $s.log 2>&1 || { echo "build failed"; tail -5 $s.log; }
for id in "$@"; do
  d=$sd/$id
  (cd $s && timeout 300 sh $d/demo.sh > $s.out 2>&1); a=$?
  git -C $s apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $s.build.sh > $s.log 2>&1 || { echo "$id: build failed"; tail -5 $s.log; }
  t=ok
  for x in $(find $s/_build -path '*test/test_*' -type f -executable); do (cd $s && timeout 60 $x > /dev/null 2>&1) || t="FAILS $x"; done
  (cd $s && timeout 300 sh $d/demo.sh > $s.out 2>&1); b=$?
  echo "$id: demo without $a, with $b; tests $t; $(grep DEMO $s.out)"
  git -C $s checkout -q -- .
  bash $s.build.sh > $s.log 2>&1
done
rm -r $s $s.build.sh $s.log $s.out
