#!/bin/bash
# run in /repo after the build: 0 = behaves as it should
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; P=$R/_build/prefix
T=$(mktemp -d) || exit 9
trap 'rm -rf "${T:?}"' EXIT
export LD_LIBRARY_PATH=$P/lib UIMACPP_HOME=$P LC_ALL=C.UTF-8
CC="g++ -std=c++17 -w -O0 -DNDEBUG -I$D -I$R/src/framework -I$R/src/cas -I/usr/include/apr-1.0"
LIBS="-L$P/lib -luima -lxerces-c -lapr-1 -licuuc -licuio -licui18n -licudata -ldl -lpthread"
$CC "$D/demo.cpp" -o "$T/demo" $LIBS || exit 9
if grep -q '#ifdef ANN' "$D/demo.cpp"; then $CC -DANN -shared -fPIC "$D/demo.cpp" -o "$T/ann.so" $LIBS || exit 9; fi
cd "$T" && timeout 200 ./demo
