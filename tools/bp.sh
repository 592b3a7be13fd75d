#!/bin/bash
# developer helper: parallel build of harness NAME -> build/NAME_par
cd /verif; n=$1; shift
g++ -std=c++17 -O2 -g1 -DNDEBUG -DPARALLEL -D_GLIBCXX_ASSERTIONS -fopenmp -DVIECUT_PATH='"/repo"' -Ishim -I${REPO:-/repo}/lib -Iharness harness/$n.cpp -o build/${n}_par "$@" 2>&1 | grep -E "error|Error" | head -30
