#!/bin/bash
# build.sh OUT DEMO.cpp: compiles /repo's current sources and the demonstration.
set -e
kit=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-$PWD}
out=$1; demo=$(realpath "$2")
mkdir -p "$out/gen"
protoc --cpp_out="$out/gen" -I"$repo/protos" "$repo/protos/params.proto"
sed 's/@[A-Z_]*@/demo/' "$repo/sources/git-version.cpp.in" > "$out/gen/git-version.cpp"
sed 's/@[A-Za-z_]*@/false/' "$repo/sources/is_fuse_t.h.in" > "$out/gen/is_fuse_t.h"
FL="-std=c++17 -include numeric -include algorithm -include mutex -O1 -w -D_FILE_OFFSET_BITS=64 -DFUSE_USE_VERSION=29 -I$kit/stubs -I$kit -I$out/gen -I$repo/sources -I/usr/include/fuse"
export FL out
one() { f=$1; g++ $FL -c "$f" -o "$out/$(basename "$f").o"; }
export -f one
ls "$repo"/sources/*.cpp "$out"/gen/*.cpp "$out"/gen/*.cc "$kit"/*.cpp "$demo" | grep -v '/win.cpp$' | xargs -P8 -I{} bash -c 'one "{}"'
g++ "$out"/*.o -o "$out/demo" -lsqlite3 -lcryptopp -largon2 -lprotobuf -licuuc -labsl_time -labsl_time_zone -labsl_strings -labsl_symbolize -labsl_failure_signal_handler -labsl_base -labsl_int128 -labsl_raw_logging_internal -lpthread -ldl
