# feature sets compared with the default build: name=features
VARIANTS="direct=std,json,de_direct memchr=std,json,perf_memchr smallvec=std,json,perf_smallvec perf=std,json,perf_memchr,perf_smallvec,perf_lexical,chrono nojson=std alloc=alloc allocperf=alloc,perf_memchr,perf_smallvec,perf_lexical"
build_variants() {
  local v pids="" ok=0 p
  for v in $VARIANTS; do
    ( export CARGO_TARGET_DIR="$VERIF_DIR/target/var-${v%%=*}"
      _q cargo build -j2 --release --offline --manifest-path "$VERIF_DIR/harness/variant/Cargo.toml" --features "${v#*=}" ) &
    pids="$pids $!"
  done
  for p in $pids; do wait "$p" || ok=1; done
  return $ok
}
