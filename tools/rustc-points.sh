#!/bin/sh
# RUSTC_WRAPPER for libsim: the crate luafmt is compiled with a call at every basic block, where libsim's
# scheduler may let another thread go on. Nothing else is changed; other crates are compiled as they are.
case " $* " in
*" --crate-name luafmt "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
esac
exec "$@"
