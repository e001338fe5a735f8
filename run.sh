#!/bin/bash
# run.sh ID [extra mc flags]: builds the explorer against /repo's working tree and decides one property.
set -u
cd "$(dirname "$0")/mc" || exit 2
id="$1"; shift
if [ "$id" = C23 ]; then exec "$(dirname "$PWD")/conc.sh" "$@"; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin="$(mktemp /tmp/mc-bin-XXXXXX)" || exit 2
trap 'rm -f "$bin"' EXIT
go build -o "$bin" ./cmd/mc || { echo "mc: build failed" >&2; exit 2; }
"$bin" run "$id" -dir "$(dirname "$PWD")" "$@"
