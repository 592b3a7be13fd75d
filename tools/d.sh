#!/bin/bash
# developer helper: debug build -> build/NAME.dbg
cd /verif; n=$1; shift
g++ -std=c++17 -O0 -g -DNDEBUG -D_GLIBCXX_ASSERTIONS -fopenmp -DVIECUT_PATH='"/repo"' -Ishim -I${REPO:-/repo}/lib -Iharness harness/$n.cpp -o build/$n.dbg "$@" 2>&1 | grep -E "error|Error" | head -30
