#!/bin/bash
# Builds the BACKEND library of /repo against a stand-in for its run-time, and
# runs the demonstration.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
F="-std=c++17 -O1 -g -w -pthread -DVECMEM_DEBUG_MSG_LVL=0 -DVECMEM_HAVE_PMR_MEMORY_RESOURCE -DVECMEM_SOURCE_DIR_LENGTH=6
   -DVECMEM_SUPPORT_POSIX_ATOMIC_REF -I $d/mock -I $d -I BACKEND/include -I core/include -I _build/core/CMakeFiles"
n=0
for s in $(find BACKEND/src -name '*.cpp' -o -name '*.sycl' | grep -v assert_polyfill); do
    n=$((n + 1))
    g++ $F -x c++ -c "$s" -o "$t/$n.o" || exit 98
done
g++ $F -c "$d/demo.cpp" -o "$t/demo.o" || exit 98
g++ "$t"/*.o -L _build/lib -lvecmem_core -Wl,-rpath,"$PWD/_build/lib" -pthread -o "$t/demo" || exit 98
timeout 120 "$t/demo"
