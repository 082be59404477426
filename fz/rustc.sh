#!/bin/bash
# Instruments the crate under test and the interpreter around it, nothing else.
rustc=$1
shift
prev= name=
for a; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case $name in
highway | hvm)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-max-loads-per-memcmp=0 -Ccodegen-units=1
    ;;
esac
exec "$rustc" "$@"
