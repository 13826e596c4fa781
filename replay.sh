#!/bin/bash
# replay.sh FILE: rebuilds the simulator from /repo's working tree and re-executes a recorded violation, with trace. Exit 1: reproduced.
V=$(cd "$(dirname "$0")" && pwd); D=$(python3 $V/tools/build.py) || exit 2
L=$(for v in gcc-O0 gcc-O2 clang-O1 asm-O2; do printf "%s=$D/lib_$v.so," $v; done)
exec $D/nsim replay --libs ${L%,} --in "$1"
