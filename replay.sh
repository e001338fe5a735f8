#!/bin/bash
# replay.sh ID REPLAY.json: runs the one unit of a recorded violation again against /repo's working tree.
set -u
id="$1"; f="$(realpath "$2")"
cd "$(dirname "$0")/mc" || exit 2
if [ "$id" = C23 ]; then exec ../conc.sh replay "$f"; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin="$(mktemp /tmp/mc-bin-XXXXXX)" || exit 2
trap 'rm -f "$bin"' EXIT
go build -o "$bin" ./cmd/mc || exit 2
"$bin" replay "$id" -dir "$(dirname "$PWD")" "$f"
