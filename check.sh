#!/bin/bash
# check.sh <property id>   rebuild the harness against /repo's working tree and decide one property
# check.sh build           rebuild only
# check.sh replay <file>   run one replay file
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$VERIF_DIR/target"
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
if ! (cd harness && cargo build --release --offline --locked) >"$log" 2>&1; then
    tail -60 "$log" >&2
    echo "CHECK-ERROR: the harness does not build against /repo" >&2
    exit 3
fi
case "$1" in
build) exit 0 ;;
replay) exec "$CARGO_TARGET_DIR/release/ucanpbt" replay "$2" ;;
*) exec "$CARGO_TARGET_DIR/release/ucanpbt" run "$1" ;;
esac
