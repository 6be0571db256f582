#!/bin/bash
# Run in the repository's root after it was built: compiles demo.cpp against the built libraries and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
OBJ=""; for f in $(cat "$D/objs" 2>/dev/null); do OBJ="$OBJ $R/$f"; done
clang++-18 -std=c++11 -stdlib=libc++ -fopenmp -O1 -g -w -fms-extensions -include "$D/compat.h" -I"$D" -I$R/basicimg/src/stdafx -I$R/basiclog/include -I$R/basicsys/include -I$R/basicmath/include -I$R/basicimg/include -isystem $R/basic_thrid_libs/lib_opencv/341/include $FLAGS "$D/demo.cpp" -o "$T/demo" -Wl,--start-group $R/_build/libbasicimg.a $R/_build/libbasicmath.a $R/_build/libbasicsys.a $R/_build/libbasiclog.a -Wl,--end-group -lpthread -no-pie -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all > "$T/build.log" 2>&1 || { cat "$T/build.log"; exit 3; }
cd "$T"; timeout 120 ./demo
