#!/bin/bash
# build the harness once (checks rebuild from /repo's working tree themselves)
cd "$(dirname "$0")" || exit 2
export WZPBT_ROOT="$PWD"
. ./build_env.sh
build_cfg default
build_cfg sched
build_digests
