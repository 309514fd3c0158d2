#!/bin/bash
# RUSTC_WRAPPER: compiles everything as asked, and the crate under test (and sim/trees, nothing else)
# with an edge callback (SanitizerCoverage trace-pc-guard) and cfg(nom_sparql_sim); in the
# "fast" profile (opt-level 1) with a callback at every load and store as well.
rc="$1"; shift
name=""; prev=""; mem=""
for a in "$@"; do
  [ "$a" = opt-level=1 ] && mem="-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Cpasses=function(tsan) -Cllvm-args=-tsan-instrument-func-entry-exit=0"
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
if [ "$name" = nom_sparql ] || [ "$name" = trees ]; then
  exec "$rc" "$@" --cfg nom_sparql_sim -A warnings \
    -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard $mem
fi
exec "$rc" "$@"
