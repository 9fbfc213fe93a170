#!/bin/bash
# usage: build.sh W   builds the simulated tool in the scratch directory W
set -e
W=$1
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
R=${REPO:-/repo}
mkdir -p $W/app $W/io $W/simk $W/gen
cp $here/../rtsim/simk/{kernel,race_off}.go $W/simk/; printf 'module verif.local/simk\n\ngo 1.18\n' > $W/simk/go.mod
sed -i 's/MaxTasks *= 48/MaxTasks = 256/' $W/simk/kernel.go
cp -r $here/sys $here/shim/* $W/io/
cat > $W/io/go.mod <<M
module verif.local/io

go 1.18

require verif.local/simk v0.0.0

replace verif.local/simk => ../simk
M
cat > $W/ov.json <<J
{"Replace":{
"$R/cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go":"$here/../rtsim/gen/collate_tables.go.txt"
}}
J
cp $here/gen/main.go $W/gen/
printf 'module gen\n\ngo 1.21\n' > $W/gen/go.mod
(cd $W/gen && go build -o $W/gen/gen .)
$W/gen/gen $R $W/ov.json $W $W/io
cat > $W/app/go.mod <<M
module github.com/xhd2015/xgo

go 1.18

require (
	verif.local/io v0.0.0
	verif.local/simk v0.0.0
)

replace (
	verif.local/simk => ../simk
	verif.local/io => ../io
)
M
mkdir -p $W/app/cmd/xgo/verifdrv
cp $here/drv/*.go $W/app/cmd/xgo/verifdrv/
cd $W/app
go build -o $W/sim ./cmd/xgo/verifdrv
