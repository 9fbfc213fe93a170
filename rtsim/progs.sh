#!/bin/bash
# usage: progs.sh W HERE REPO GOROOT SEED   the generated programs' part of build.sh
set -e
W=$1 here=$2 R=$3 GR=$4 seed=$5
N=${VERIF_PROGS:-40}
(cd $here/progen && go build -o $W/progen .)
mkdir -p $W/orig
printf 'module verif.local/orig\n\ngo 1.27\n' > $W/orig/go.mod
cp $W/app/main.go $W/main.go.0
for n in $(seq 0 $((N-1))); do $W/progen $W/app/p/$n verif.local/app/p/$n $((seed*1000+n)); done
cp -r $W/app/p $W/orig/p
find $W/orig/p -name '*.go' -exec sed -i 's#verif.local/app/p/#verif.local/orig/p/#' {} +
# the programs have to be valid themselves
python3 $here/progs.py imports $W > $W/app/main.go
export VERIF_GEN_PROGS=1 VERIF_GEN_W=$W VERIF_GEN_REPO=$R VERIF_GEN_GOROOT=$GR
python3 $here/progs.py valid $W
python3 $here/progs.py imports $W > $W/app/main.go
cp -r $W/runtime $W/runtime.0; cp -r $W/simrt $W/simrt.0; cp -r $W/app $W/app.0; cp -r $W/orig $W/orig.0
if ! $W/gen > $W/gen.log 2>&1; then
  # which program does the pipeline not get through?
  python3 $here/progs.py single $W
  for d in runtime simrt app orig; do rm -rf $W/$d; cp -r $W/$d.0 $W/$d; done
  python3 $here/progs.py imports $W > $W/app/main.go
  $W/gen > $W/gen.log 2>&1 || { cat $W/gen.log; exit 1; }
fi
for d in app orig; do for f in $W/$d/p/*/*/zz_pt.txt; do mv $f ${f%.txt}.go; done; done
python3 $here/progs.py build $W
cd $W/app
go build -o $W/sim .
rm -rf $W/*.0
