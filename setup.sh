#!/bin/bash
# Warms the Go build cache for the drivers; every check builds again from /repo.
set -e
cd "$(dirname "$0")/harness"
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o /dev/null ./core
go build -o /dev/null ./dspx
CGO_ENABLED=1 CGO_CFLAGS="$(python3 ../lib/hostflags.py)" go build -asan -gcflags=all=-d=checkptr=0 -o /dev/null ./host
CGO_ENABLED=1 CGO_CFLAGS="$(python3 ../lib/hostflags.py)" go build -o /dev/null ./host
CGO_ENABLED=1 go build -race -o /dev/null ./core
CGO_ENABLED=1 CGO_CFLAGS="$(python3 ../lib/hostflags.py)" go build -race -gcflags=all=-d=checkptr=0 -o /dev/null ./host
go build -tags debug -o /dev/null ./dbg
CGO_ENABLED=1 go build -race -tags debug -o /dev/null ./dbg
mkdir -p ../evidence
