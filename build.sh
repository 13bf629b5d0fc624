#!/bin/bash
# builds the engine into /verif/bin (offline)
set -e
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" GONOSUMDB=* GONOSUMCHECK=1
export PATH=$GOROOT/bin:$PATH
mkdir -p "$d/bin" "$d/evidence"
cd "$d/engine"
go build -o "$d/bin/gosym" .
