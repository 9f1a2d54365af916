#!/bin/bash
export WZPBT_ROOT=/verif; . /verif/build_env.sh; build_cfg sched; grep -A6 "^error" /verif/harness/target-sched.log
