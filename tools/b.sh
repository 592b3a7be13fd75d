#!/bin/bash
# developer helper: [REPO=dir] tools/b.sh NAME [extra flags] -> build/NAME
cd /verif; n=$1; shift
R=${REPO:-/repo}
g++ -std=c++17 -O2 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fopenmp -DVIECUT_PATH='"/repo"' -Ishim -I$R/lib -Iharness harness/$n.cpp -o build/$n "$@" 2>&1 | grep -E "error|Error" | head -30
