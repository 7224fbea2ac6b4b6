#!/bin/bash
# Compiles demo.cpp against the libraries built in /repo/_build and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=(); for d in "$R"/bliss/*/include; do I+=("-I$d"); done
D=$(ls -d /opt/vp/deps/*/include /opt/vp/deps/include 2>/dev/null | sed 's/^/-isystem /')
A=(); for a in bliss/drift_search/libdrift_search bliss/drift_search/libdrift_search_kernels bliss/estimators/libestimators bliss/flaggers/libflaggers bliss/preprocess/libbliss_preprocess bliss/rfi/librfi bliss/file_types/libbliss_serialization bliss/file_types/libfile_types bliss/core/libbliss_core bland/bland/libbland; do [ -f "$R/_build/$a.a" ] && A+=("$R/_build/$a.a"); done
g++ -std=c++17 -O1 -w -DFMT_HEADER_ONLY -DFMT_DEPRECATED_OSTREAM -DBLISS_USE_CAPNP=1 "$here/demo.cpp" -o "$T/demo" "${I[@]}" -I"$R/bliss" -I"$R/bliss/drift_search" -I"$R/bland/bland/include" -I"$R/bland/bland/internal/include" -I"$R/bland/bland" -I"$R/bland/external/dlpack" -I"$R/_build/bliss/file_types" -isystem /usr/include/hdf5/serial $D \
  -Wl,--start-group "${A[@]}" -Wl,--end-group -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lcapnp -lkj -lfftw3f -lpthread || exit 3
cd "$T" && timeout 120 ./demo
