#!/bin/sh
# Compiles the library under test with a callback at every edge of its control flow,
# where the simulated scheduler may switch threads.  Everything else is compiled as usual.
case " $* " in *" --crate-name ppt_rs "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
esac
exec "$@"
