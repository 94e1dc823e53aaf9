#!/bin/bash
# demo1.sh BUILD_SCRIPT ID...: like try_demos.sh, in the already built copy VERIF_REPO (with its own build script)
b=$1; shift
for i in "$@"; do
  d=$VERIF_SEEDED/$i
  (cd $VERIF_REPO; sh $d/demo.sh > /tmp/demo1.log 2>&1); a=$?
  git -C $VERIF_REPO apply $d/patch.diff || continue
  bash $b > /tmp/demo1.log 2>&1 || echo buildfail
  (cd $VERIF_REPO; t=ok; for x in $(find _build -path '*test/test_*' -type f -executable); do timeout 60 $x > /dev/null 2>&1 || t="FAILS $x"; done
   sh $d/demo.sh > /tmp/demo1.log 2>&1; echo "$i without $a, with $? tests $t $(grep DEMO /tmp/demo1.log)")
  git -C $VERIF_REPO checkout -q -- .
  bash $b > /tmp/demo1.log 2>&1
done
