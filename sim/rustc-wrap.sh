#!/bin/bash
# RUSTC_WRAPPER: compiles the library under test and its call sites with SanitizerCoverage callbacks (the preemption seam).
rustc="$1"; shift
n=""; p=""
for a in "$@"; do [ "$p" = --crate-name ] && n="$a"; p="$a"; done
pc=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc)
case "$n" in
 gauss_quad|work) exec "$rustc" "$@" "${pc[@]}" -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores;;
 rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils) exec "$rustc" "$@" "${pc[@]}";;
 *) exec "$rustc" "$@";;
esac
