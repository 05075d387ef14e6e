# sourced: build_for ID builds what the check of one property needs, offline
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VERIF_DIR:-/verif}/target/check"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
_q() { # run quietly, show output on failure
  local out; out=$("$@" 2>&1) || { echo "$out" >&2; return 1; }
}
build_check() { _q cargo build --release --offline --manifest-path "$VERIF_DIR/harness/check/Cargo.toml"; }
build_typed() { _q cargo build --release --offline --manifest-path "$VERIF_DIR/harness/typed/Cargo.toml"; }
# the command line tool, from /repo's own workspace
build_cli() {
  CARGO_TARGET_DIR="$VERIF_DIR/target/cli" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 \
    _q cargo build -p toon-cli --locked --offline --manifest-path /repo/Cargo.toml
}
# the WebAssembly bindings, compiled for this machine
build_wasm() { CARGO_TARGET_DIR="$VERIF_DIR/target/wasm" _q cargo build --release --offline --manifest-path "$VERIF_DIR/harness/wasm/Cargo.toml"; }
. "$VERIF_DIR/tools/variants.sh"
build_for() {
  BIN=check
  case "$1" in
    C12|C18) BIN=typed; build_typed ;;
    C13) build_check & p=$!; build_variants && wait $p ;;
    C16) build_check && build_wasm ;;
    C15) build_check && build_cli ;;
    *) build_check ;;
  esac
}
