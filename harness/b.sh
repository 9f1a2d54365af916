#!/bin/bash
cd /verif/harness && . /opt/vp/env.sh && export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
cargo build --offline "$@" 2>&1 | grep -E "^(warning|error)" -A7 | grep -v "never used" | head -${LINES_MAX:-80}
