#!/bin/bash
# builds the demonstration against the libraries in /repo/_build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
L=_build/vrs
g++ -std=c++20 -O1 -w -I. -I_build -Ivrs/oss/logging/include -Ivrs/oss "$here/demo.cpp" -o "$w/demo" \
  -Wl,--start-group $L/utils/libvrs_utils.a $L/libvrslib.a $L/helpers/libvrs_helpers.a $L/os/libvrs_os.a $L/oss/logging/libvrs_logging.a $L/utils/xxhash/libvrs_utils_xxhash.a \
  $(find _build -maxdepth 3 -name 'libvrs_utils_converters.a') -Wl,--end-group \
  -lfmt -llz4 -lzstd -lxxhash -lpng -lturbojpeg -ljpeg -lboost_filesystem -lboost_system -lboost_date_time -lpthread || exit 2
cd "$w" && timeout 120 ./demo
