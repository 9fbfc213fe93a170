#!/bin/bash
# usage: build.sh W [race] [gen] [prog sSEED nPROGRAMS]   builds the simulated program in the scratch directory W
set -e
W=$1
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
R=${REPO:-/repo}
shift
race=; rt=$R/runtime; prog=; seed=1
for a in "$@"; do case $a in race) race=-race;; gen) rt=$R/cmd/xgo/asset/runtime_gen;; prog) prog=1;; s*) seed=${a#s};; n*) export VERIF_PROGS=${a#n};; esac; done
GR=$(go env GOROOT)
mkdir -p $W
for d in simk simrt; do cp -r $here/$d $W/$d; done
if [ -n "$prog" ]; then
  for d in pt pdrv; do cp -r $here/$d $W/$d; done
  cp -r $here/papp $W/app
else
  for d in app api drv; do cp -r $here/$d $W/$d; done
fi
mkdir $W/runtime
(cd $rt && find . -path ./test -prune -o -name "*.go" ! -name "*_test.go" -print -o -name 'go.mod*' -print | tar cf - -T - | tar xf - -C $W/runtime)
[ -f $W/runtime/go.mod ] || mv $W/runtime/go.mod.txt $W/runtime/go.mod
cat > $W/ov.json <<J
{"Replace":{
"$R/cmd/xgo/verif_gen.go":"$here/gen/verif_gen.go",
"$R/cmd/xgo/verif_prog.go":"$here/gen/verif_prog.go",
"$R/cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go":"$here/gen/collate_tables.go.txt"
}}
J
(cd $R && go build -overlay $W/ov.json -o $W/gen ./cmd/xgo)
if [ -n "$prog" ]; then
  bash $here/progs.sh $W $here $R $GR $seed
  exit
fi
VERIF_GEN_W=$W VERIF_GEN_REPO=$R VERIF_GEN_GOROOT=$GR $W/gen
cd $W/app
go build $race -o $W/sim .
