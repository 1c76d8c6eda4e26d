#!/bin/bash
# rustc wrapper of the instrumented builds: the library and the simulator (which holds the
# library's generics) get the thread-sanitizer pass, without its runtime. sim/simrt is the
# runtime. Every other crate is compiled as usual.
rustc=$1
shift
case " $* " in
*" --crate-name sudoku "* | *" --crate-name sim "*)
    export RUSTC_BOOTSTRAP=1
    memory=0
    [ "$SIM_BUILD" = statics ] && memory=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
        -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
        -Cllvm-args=-tsan-instrument-memory-accesses=$memory \
        -Cllvm-args=-tsan-instrument-memintrinsics=$memory
    ;;
esac
exec "$rustc" "$@"
