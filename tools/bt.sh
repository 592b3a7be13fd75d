#!/bin/bash
# developer helper: backtrace of a crashing replay
cd /verif; gdb -batch -ex "set follow-fork-mode child" -ex run -ex bt --args build/$1 --replay $2 -v 2>&1 | grep -E "^#|FAIL|Assert|ERROR" | grep -vE "libc|pbt::|__p|raise|abort" | cut -c1-180 | head -${3:-16}
