#!/bin/bash
# builds the symbolic engine from /verif/engine
cd "$(dirname "$0")/engine" || exit 2
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOTOOLCHAIN=local CGO_ENABLED=0
unset GOROOT
mkdir -p ../bin
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=$(command -v go)
exec "$GO" build -o ../bin/gosym .
