#!/bin/bash
# Adds edge and atomic-operation instrumentation to the crates whose interleavings matter. Build scripts and proc macros
# are not affected: cargo builds for an explicit --target, and only those calls carry --target.
rustc="$1"; shift
name=""; target=0; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$a" = "--target" ] && target=1
  prev="$a"
done
sim=()
[ "$name" = osm_io ] && sim=(--cfg osm_io_sim)
case "$target:$name" in
  1:osm_io|1:command_executor|1:text_file_sort|1:crossbeam*|1:osmio_sim)
    exec "$rustc" "$@" "${sim[@]}" "-Cpasses=function(tsan) sancov-module" -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
