#!/bin/bash
# build.sh NAME...   builds simulator binaries (tr, gen, avro) from the current tree of /repo.
# Everything written goes below $BUILD (default /verif/build), which git ignores.
set -e
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export BUILD=${BUILD:-$V/build}
export GOCACHE=${SIM_GOCACHE:-$BUILD/gocache} GO111MODULE=on CGO_ENABLED=1 GOTMPDIR=$BUILD/tmp
mkdir -p $BUILD/tmp $BUILD/bin
GOROOT=$(go env GOROOT)
REPO=${REPO:-/repo}
cd $V/tools
(cd stdoverlay && GO111MODULE=off go build -o $BUILD/bin/stdoverlay .) &
(cd instr && GO111MODULE=off go build -o $BUILD/bin/instr .) &
wait
$BUILD/bin/stdoverlay $GOROOT $BUILD/std
# The module: the repository's requirements, the repository itself by path.
{
  echo 'module verifsim'
  sed -n '/^go /p; /^toolchain/p' $REPO/go.mod
  sed -n '/^require (/,/^)/p; /^require [^(]/p; /^replace/p; /^exclude/p' $REPO/go.mod
  echo 'require github.com/GannettDigital/jstransform v0.0.0'
  echo "replace github.com/GannettDigital/jstransform => $REPO"
} >$BUILD/go.mod
cp $REPO/go.sum $BUILD/go.sum
# singleflight is instrumented too; files in the module cache cannot be replaced, a copy can.
SYNC=$(cd $REPO && go list -m -f '{{.Dir}}' golang.org/x/sync)
rm -rf "$BUILD/dep"
mkdir -p $BUILD/dep
cp -r $SYNC $BUILD/dep/sync
chmod -R u+w $BUILD/dep
echo "replace golang.org/x/sync => $BUILD/dep/sync" >>$BUILD/go.mod
# The command, as a package that can be called.
mkdir -p $BUILD/dep/cli
for f in $REPO/*.go; do
  case $f in *_test.go) continue ;; esac
  sed 's/^package main$/package cli/; s/^func main()/func Main()/' $f >$BUILD/dep/cli/${f##*/}
done
{ echo 'module verifcli'; sed -n '/^go /p' $REPO/go.mod; } >$BUILD/dep/cli/go.mod
echo 'require verifcli v0.0.0' >>$BUILD/go.mod
echo "replace verifcli => $BUILD/dep/cli" >>$BUILD/go.mod
# What the current tree generates for the schemas of the avro simulator.
GENERATED=
rm -rf "$BUILD/avrogen"
case " $* " in *" avro "*)
  mkdir -p $BUILD/avrogen
  (cd $V/sim && go build -modfile=$BUILD/go.mod -o $BUILD/bin/mkavro ./cmd/mkavro)
  (cd $V/sim && $BUILD/bin/mkavro $V/sim/cmd/mkavro/schemas $BUILD/avrogen)
  { echo 'module verifavro'; sed -n '/^go /p' $REPO/go.mod; } >$BUILD/avrogen/go.mod
  echo 'require verifavro v0.0.0' >>$BUILD/go.mod
  echo "replace verifavro => $BUILD/avrogen" >>$BUILD/go.mod
  GENERATED=$(find $BUILD/avrogen -name '*.go' -path '*/*/*' ! -name types_gen.go -printf '%h\n' | sort -u)
  ;;
esac
$BUILD/bin/instr $BUILD/instr.json $BUILD/instr $REPO/transform $REPO/jsonschema $BUILD/dep/sync/singleflight $REPO/generate $BUILD/dep/cli $GENERATED
python3 - $BUILD/overlay.json $BUILD/std/std.json $BUILD/instr.json $V/sim/cmd/avro/types_gen.go $BUILD/avrogen/types_gen.go <<'P'
import json,sys,os
r={}
for f in sys.argv[2:4]: r.update(json.load(open(f))["Replace"])
if os.path.exists(sys.argv[5]): r[sys.argv[4]]=sys.argv[5]
json.dump({"Replace":r},open(sys.argv[1],"w"))
P

cd $V/sim
for b in "$@"; do
  race=-race
  [ $b = gen ] && race=
  go build $race -modfile=$BUILD/go.mod -overlay=$BUILD/overlay.json -o $BUILD/bin/$b ./cmd/$b
done
