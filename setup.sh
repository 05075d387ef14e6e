#!/bin/bash
# builds the framework from the committed files (offline)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./tools/build.sh
build_check && build_typed && build_cli && build_wasm && build_variants
