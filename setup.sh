#!/bin/bash
# setup.sh: warms the Go build cache by building the explorer once, offline.
set -eu
cd "$(dirname "$0")/mc"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go vet ./ref ./gen ./eng
go build -o /dev/null ./cmd/mc
echo "setup: ok"
