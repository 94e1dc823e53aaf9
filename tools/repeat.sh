#!/bin/bash
# Repeatability: a seed must give the same execution whether it runs in the middle
# of a search or alone, from a command line and scratch path of another length.
# tools/repeat.sh SEEDS [WORLD:PROP ...]; prints the ones that differ.
cd "$(dirname "$0")/.."
n=$1; shift
rm -rf "$PWD/build/rep"
mkdir -p build/rep/some/longer/path
one() {
  w=${1%%:*}; p=${1#*:}; n=$2; d=$PWD/build/rep
  ./build/bin/$w --prop=$p --base=77 --first=0 --stride=1 --runs=$n --seconds=1000 --cpu=$((RANDOM % 8)) --hashes=$d/$w-$p --scratch=$d/some/longer/path > /dev/null 2>&1
  while read s h; do
    b=$(./build/bin/$w --one --prop=$p --seed=$s --scratch=$d 2>/dev/null | tail -1)
    case "$b" in *"\"hash\":\"$h\""*) ;; *) echo "DIFFERS $w $p seed $s: $h in the search, alone $b" ;; esac
  done < $d/$w-$p
  [ $(wc -l < $d/$w-$p) = $n ] || echo "SHORT $w $p"
}
export -f one
if [ $# = 0 ]; then
  set -- $(python3 -c "
import sys; sys.path.insert(0,'lib')
import config
c = getattr(config,'CHECKS',None) or config.PROPS
print(' '.join(w+':'+p for p in sorted(c) for w in c[p]['worlds']))")
fi
for wp in "$@"; do echo "$wp $n"; done | xargs -P 8 -L 1 bash -c 'one "$0" "$1"'
rm -rf "$PWD/build/rep"
echo "repeat: $# pairs, $n seeds each"
