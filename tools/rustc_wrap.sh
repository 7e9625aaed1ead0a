#!/bin/sh
# Compiles the library with a call at every edge of its control flow graph: the simulator's points of preemption inside
# pure computation, and its measure of what was reached. Everything else is compiled as it is.
rustc=$1; shift
case " $* " in
  *" --crate-name little_exif "*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table ;;
  *) exec "$rustc" "$@" ;;
esac
