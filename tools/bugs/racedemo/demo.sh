#!/bin/bash
# runs demo_test.go.txt against /repo's runtime with a stand-in for the patched Go runtime
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cat > "$d/ov.json" <<J
{"Replace":{
"$repo/runtime/internal/runtime/runtime_link.go":"$here/link.go.txt",
"$repo/runtime/internal/verifdemo/lib_test.go":"$here/lib.go.txt",
"$repo/runtime/internal/verifdemo/demo_test.go":"$here/demo_test.go.txt"}}
J
cd "$repo/runtime" && go test -race -c -vet=off -overlay "$d/ov.json" -o "$d/t" ./internal/verifdemo && cd "$d" && ./t
