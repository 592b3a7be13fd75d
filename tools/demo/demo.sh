#!/bin/bash
# exit 0: behaviour as promised, nonzero: broken. Run with the repository as cwd.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
FLAGS=""
[ -f "$D/flags" ] && FLAGS=$(cat "$D/flags")
g++ -std=c++17 -O1 -w -fopenmp -DNDEBUG -DVIECUT_PATH="\"$PWD\"" $FLAGS -I"$D/shim" -I"$D" -I"$PWD/lib" "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T" && timeout 250 ./demo
