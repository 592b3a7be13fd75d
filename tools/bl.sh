#!/bin/bash
# developer helper: build with logging -> build/NAME.log (run with --replay CASE -v)
cd /verif; n=$1; shift
g++ -std=c++17 -O1 -g -fopenmp -w -DNDEBUG -DVP_LOG_PRINT -DVIECUT_PATH='"/repo"' -Ishim -I${REPO:-/repo}/lib -Iharness harness/$n.cpp -o build/$n.log "$@"
