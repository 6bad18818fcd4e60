#!/bin/bash
# dev helper: build one harness binary and run properties with outputs in /tmp
. /opt/vp/env.sh; unset CARGO_PROFILE_DEV_DEBUG; export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/target VERIF_OUT=/tmp/vo VERIF_EVIDENCE=/tmp/ve
b=$1; shift
cd /verif/harness && cargo build --release --offline --bin $b 2>&1 | grep -A12 -E "^error|^warning: unus" | head -80
for i in "$@"; do timeout 600 ../target/release/$b $i ${TIER:-quick} 2>&1 | cut -c1-${W:-1200}; done
