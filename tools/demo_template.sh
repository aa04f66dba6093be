#!/bin/bash
# builds demo.cc against the library just built in /repo and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
b=/repo/_build
export OMP_NUM_THREADS=4 TZ=UTC FIMEX_IO_PLUGINS_PATH=$b/src/io/netcdf:$b/src/io/felt:$b/src/io/grib
g++ -std=c++17 -O1 -fopenmp -rdynamic -I/repo/include -I$b/include -I/repo/src -I/repo/src/io/netcdf -I$b/src -I$b/src/io/netcdf -I/usr/include/libxml2 "$d/demo.cc" -o "$w/demo" \
  -Wl,--no-as-needed -L$b/src -lfimex-2.4 -L$b/src/io/netcdf -lfimex-io-netcdf-2.4 -lnetcdf -ludunits2 -lboost_date_time -ldl -lpthread -Wl,-rpath,$b/src:$b/src/io/netcdf || exit 2
cd "$w" && timeout 120 ./demo
