#!/bin/bash
# runs demo_test.go.txt as a test of the package its first line names
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
pkg=$(sed -n '1s|^// ||p' "$here/demo_test.go.txt")
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
extra=
# a generated table that is not in the repository
[ -e "$here/collate_tables.go.txt" ] && extra=",\"$repo/cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go\":\"$here/collate_tables.go.txt\""
cat > "$d/ov.json" <<J
{"Replace":{"$repo/$pkg/verif_demo_test.go":"$here/demo_test.go.txt"$extra}}
J
(cd "$repo" && go test -c -vet=off -overlay "$d/ov.json" -o "$d/t" "./$pkg") && cd "$d" && TMPDIR="$d" HOME="$d" timeout 100 ./t -test.run TestVerifDemo
