#!/bin/bash
# check.sh ID [quick|thorough] [more options of the runner]: rebuild from /repo, then run one property check
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift 2
case $ID in A*) CRATE=snapharness; BIN=snap-harness ;; *) CRATE=harness; BIN=lam-harness ;; esac
"$ROOT/build.sh" "$CRATE" || exit 3
export VERIF_ROOT=$ROOT
ulimit -c 0
"$ROOT/build/target/debug/$BIN" run "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" "$@"
rc=$?
case $rc in 0|1|2) exit $rc ;; esac
# the process died (abort, stack overflow, out of memory): no verdict was reached
echo "HARNESS-ERROR $ID runner ended with status $rc" >&2
exit 3
