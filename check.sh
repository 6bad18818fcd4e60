#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   run one check
#        check.sh setup                         build everything
#        check.sh replay <file>                 re-run one recorded case
# Builds the harness against /repo's current working tree, then runs the check.
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$(pwd)
export VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export VERIF_OUT="$VERIF_DIR/out" VERIF_EVIDENCE="$VERIF_DIR/evidence"
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_OUT" "$VERIF_EVIDENCE"

bin_of() {
  case "$1" in
    T*) echo trading ;;
    S*) echo exits ;;
    I*) echo indicators ;;
    G*|B*) echo strategies ;;
    E*) echo genetics ;;
    A*) echo stats ;;
    D*) echo prims ;;
    N*) echo net ;;
    *) return 1 ;;
  esac
}

# cargo trusts file times; a copied tree may carry old ones.  A content hash of
# the sources decides whether the repository's crates must be rebuilt.
stamp() {
  ( cd /repo && find juno/src juno/Cargo.toml juno_derive juno_axum/src juno_axum/Cargo.toml Cargo.toml Cargo.lock \
      -type f -not -path '*/target/*' -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1 )
}

# sync_stamp <stampfile> <cargo clean args...>
sync_stamp() {
  local f="$1"; shift
  local now; now=$(stamp)
  if [ "$(cat "$f" 2>/dev/null)" != "$now" ]; then
    if [ -d "$CARGO_TARGET_DIR/release" ]; then cargo clean --offline --release "$@" >/dev/null 2>&1; fi
    rm -f "$f"
    STAMP_PENDING="$now"; STAMP_FILE="$f"
  else
    STAMP_PENDING=""
  fi
}
commit_stamp() { if [ -n "$STAMP_PENDING" ]; then echo "$STAMP_PENDING" > "$STAMP_FILE"; fi; }

build_harness() { # bins...
  local log="$VERIF_OUT/build-harness.log" args=()
  for b in "$@"; do args+=(--bin "$b"); done
  exec 9>"$CARGO_TARGET_DIR/.verif-lock"; flock 9
  sync_stamp "$CARGO_TARGET_DIR/.stamp-harness-all" --manifest-path harness/Cargo.toml -p juno -p juno_derive -p vharness
  if ! cargo build --offline --release --locked --manifest-path harness/Cargo.toml "${args[@]}" >"$log" 2>&1; then
    echo "BUILD FAILED (harness):"; grep -E -A12 '^error' "$log" | head -60; return 1
  fi
  commit_stamp
  flock -u 9
}

build_axum() {
  local log="$VERIF_OUT/build-axum.log"
  exec 9>"$CARGO_TARGET_DIR/.verif-lock"; flock 9
  local td="$CARGO_TARGET_DIR/axum"
  mkdir -p "$td"
  local f="$td/.stamp" now; now=$(stamp)
  if [ "$(cat "$f" 2>/dev/null)" != "$now" ]; then
    if [ -d "$td/debug" ]; then CARGO_TARGET_DIR="$td" cargo clean --offline --manifest-path /repo/Cargo.toml -p juno -p juno_derive -p juno_axum >/dev/null 2>&1; fi
    rm -f "$f"
  fi
  if ! CARGO_TARGET_DIR="$td" CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --manifest-path /repo/Cargo.toml -p juno_axum >"$log" 2>&1; then
    echo "BUILD FAILED (juno_axum):"; grep -E -A12 '^error' "$log" | head -60; return 1
  fi
  echo "$now" > "$f"
  flock -u 9
}

case "$1" in
  setup)
    build_harness trading exits indicators strategies genetics stats prims net || exit 2
    build_axum || exit 2
    exit 0 ;;
  replay)
    id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
    b=$(bin_of "$id") || { echo "cannot tell the property of $2"; exit 2; }
    build_harness "$b" || exit 2
    [ "$b" = net ] && { build_axum || exit 2; }
    exec "$CARGO_TARGET_DIR/release/$b" replay "$2" ;;
esac

ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
b=$(bin_of "$ID") || { echo "unknown property '$ID'"; exit 2; }
build_harness "$b" || exit 2
if [ "$b" = net ]; then build_axum || exit 2; fi

# listed findings that are not repaired (there may be none)
if [ -f known_findings.txt ]; then
  grep -E "^KNOWN-FINDING: property=$ID " known_findings.txt
fi
# how many times the base number of cases; the cheaper a check, the more
if [ "$TIER" = quick ] && [ -z "$VERIF_MULT" ]; then
  case "$ID" in
    T02|T03|T04|E01|E02|E06|G02|B01|D02|D03|D04|D05|D06|N01) export VERIF_MULT=3 ;;
    T05|A02|E05|E07|G04|D01|N03) export VERIF_MULT=2 ;;
  esac
fi
VERIF_TIER="$TIER" exec "$CARGO_TARGET_DIR/release/$b" "$ID" "$TIER"
