#!/bin/bash
# RUSTC_WRAPPER of the instrumented build: SanitizerCoverage for the code under test and the
# properties (in which its generic parts are compiled), nothing for the engine and third parties.
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case "$name" in
    calendar | qlab_error | qlab_math | qlab_time | qlab_termstructure | qlab_instrument | cal | full)
        exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
            -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-trace-compares \
            -C llvm-args=-sanitizer-coverage-prune-blocks=0
        ;;
esac
exec "$@"
