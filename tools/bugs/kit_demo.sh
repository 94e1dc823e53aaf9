#!/bin/sh
# compiles the demo, links it with the libraries built in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
B=$PWD/_build
L="$B/builder:$B/builder/data:$B/back_end:$B/registrators:$B/common:$B/pre_processors:$B/descriptor"
g++ -std=gnu++14 -O1 -w -fopenmp -rdynamic -Wl,--unresolved-symbols=ignore-in-shared-libs -I"$here" -Ithird_parties -I. -Ibuilder -I/usr/include/eigen3 -I/usr/include/pcl-1.14 -I/usr/include/vtk-9.1 \
  "$here/demo.cc" -o "$t/demo" -L"$B/builder" -L"$B/builder/data" -L"$B/back_end" -L"$B/registrators" -L"$B/common" -L"$B/pre_processors" -L"$B/descriptor" \
  -lstatic_mapping_builder -lstatic_mapping_builder_data -lstatic_mapping_backend -lstatic_mapping_registrators -lstatic_mapping_pre_processors \
  -lstatic_mapping_descriptor -lstatic_mapping_common "$B/third_parties/libpugixml.a" -lpcl_io -lpcl_common -lgtsam -lGeographicLib -lglog -ltbb \
  -lboost_thread -lboost_filesystem -lboost_system -lpthread || { rm -r "$t"; exit 3; }
mkdir "$t/exp" "$t/pkg"
LD_LIBRARY_PATH="$L" timeout 200 "$t/demo" "$t" > "$t/log" 2>&1; rc=$?
tail -3 "$t/log"
rm -r "$t"
exit $rc
