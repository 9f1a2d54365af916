#!/bin/bash
# run.sh <PROPERTY>: rebuild the harness against /repo's working tree and run one property's checks.
cd "$(dirname "$0")" || exit 2
export WZPBT_ROOT="$PWD"
. ./build_env.sh
if [ "$1" = C21 ]; then
  # with the locks under control; should that not build, with real threads only
  build_cfg sched && exec "$BIN_sched" run "$1"
  echo "note: no build with controlled locks, only real threads are run" >&2
fi
build_cfg default || { echo "ERROR: harness build failed" >&2; exit 2; }
if [ "$1" = C23 ]; then
  build_digests || { echo "ERROR: digest server build failed" >&2; exit 2; }
fi
exec "$BIN_default" run "$1"
