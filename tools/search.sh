#!/bin/sh
# search.sh WORLD PROP SECONDS: quick ad-hoc search without evidence
cd "$(dirname "$0")/.." && python3 lib/build.py $1 2>&1 | grep -v "^ok" 
mkdir -p /tmp/vs; [ -e /tmp/vs/stop ] && unlink /tmp/vs/stop; exec ./build/bin/$1 --prop=$2 --base=${SEED:-1} --first=0 --stride=1 --runs=${RUNS:-100000000} --seconds=${3:-5} --tier=0 --scratch=/tmp/vs --stopfile=/tmp/vs/stop --known=${KNOWN:-} --wall=60
