#!/bin/bash
# run.sh ID... : quick runs with several seeds (development helper)
cd "$(dirname "$0")/.."; export VERIF_ROOT=$PWD; ulimit -c 0
for id in $1; do for s in ${2:-1 2 3}; do
  b=lam-harness; case $id in A*) b=snap-harness;; esac
  ./build/target/debug/$b run $id --tier ${3:-quick} --seed $s 2>&1 | tail -${4:-25}; done; done
