#!/bin/sh
# try_bugs.sh ID...: applies each planted bug to the repository, runs its property's check, restores the repository
# (VERIF_REPO: another copy, VERIF_SEEDED: another directory of planted bugs)
r=${VERIF_REPO:-/repo}; sd=${VERIF_SEEDED:-/verif/seeded}; v=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$sd/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$(git -C $r status --porcelain --untracked-files=no)" ] && { echo "$r not clean"; exit 2; }
  git -C $r apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=$(date +%s)
  out=$(cd $v && ./check $prop 2>&1); rc=$?
  git -C $r checkout -q -- .
  echo "== $id ($prop) exit $rc, $(( $(date +%s) - t )) s"
  echo "$out" | tail -${LINES_SHOWN:-3} | cut -c1-400
done
