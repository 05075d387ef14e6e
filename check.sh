#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE | --case FAM:IDX | --only FAM]
# Builds the harness against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"
case "$tier" in quick|thorough) shift ;; *) tier="${VERIF_TIER:-quick}" ;; esac
. ./tools/build.sh
build_for "$id" || { echo "build failed for $id" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/release/$BIN" "$id" "$tier" "$@"
