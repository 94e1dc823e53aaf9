#!/bin/sh
# gdbseed.sh WORLD PROP SEED: back trace of a run that crashes
exec timeout 120 gdb -q -batch -ex "set pagination off" -ex "set follow-fork-mode child" -ex "set env SIM_ENV=1" -ex "set env SIM_NOASLR=1" -ex "set env OMP_NUM_THREADS=1" -ex "set env LC_ALL=C" -ex "set env TZ=UTC" -ex run -ex "bt 12" --args /verif/build/bin/$1 --one --prop=$2 --seed=$3 --scratch=/tmp/vs
