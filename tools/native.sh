#!/bin/bash
# developer helper: build and run native drivers directly:  tools_native.sh SECONDS C01 C02 ...
S=$1; shift
T=$(mktemp -d)
for c in "$@"; do
 g++ -std=c++17 -O1 -w -fno-access-control -DEIGEN_NO_DEBUG -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -g1 \
   -I${ROFL_REPO:-/repo} -I${ROFL_REPO:-/repo}/common/include -I${ROFL_REPO:-/repo}/geometry/include -I/usr/include/eigen3 \
   "$(dirname "$0")/../native/$c.cpp" -o $T/x -lboost_filesystem -lboost_system -lpthread && \
 (cd $T; echo -n "$c: "; ASAN_OPTIONS=detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0 ./x search 1 $S /dev/null)
done
rm -r "$T"
