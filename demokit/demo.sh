#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/securefs-demo-build-XXXXXX)
trap 'rm -rf "$out"' EXIT
bash "$here/kit/build.sh" "$out" "$here/demo.cpp" || { echo "build failed"; exit 3; }
"$out/demo"
