#!/bin/bash
# instruments prog.go.txt, runs it as written and instrumented, and compares
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/prog"
cp "$here/prog.go.txt" "$d/prog/main.go"
if [ -f "$here/lib.go.txt" ]; then mkdir "$d/prog/lib"; cp "$here/lib.go.txt" "$d/prog/lib/lib.go"; fi
printf 'module example.com/prog\n\ngo 1.18\n' > "$d/prog/go.mod"
cp -r "$d/prog" "$d/ins"
cat > "$d/ov.json" <<J
{"Replace":{"$repo/instrument/verifdemo/ins_test.go":"$here/ins.go.txt"}}
J
cd "$repo" && go test -c -vet=off -overlay "$d/ov.json" -o "$d/t" ./instrument/verifdemo || exit 2
(cd "$d/ins" && "$d/t" -test.v > "$d/log") || { cat "$d/log"; exit 2; }
cd "$d/prog" && go run . > "$d/a" 2>&1
cd "$d/ins" && go run . > "$d/b" 2>&1
diff "$d/a" "$d/b" && grep -q . "$d/a"
