#!/bin/bash
# usage: build_drv.sh REPO OUT : instrumented copy of REPO plus the driver, built as OUT/drv
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$1; out=$2
[ -n "$out" ] && rm -rf "$out/mod"
mkdir -p "$out/mod"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
( cd "$here/harness/instr" && go build -o "$out/instr" . )
"$out/instr" "$repo" "$out/mod"
cp "$repo/go.mod" "$repo/go.sum" "$out/mod/"
mkdir -p "$out/mod/zzverif"
cp -r "$here/harness/vs" "$out/mod/zzverif/vs"
cp -r "$here/harness/drv" "$out/mod/zzverif/drv"
( cd "$out/mod" && go build -o "$out/drv" ./zzverif/drv )
