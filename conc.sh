#!/bin/bash
# conc.sh [mc flags]: decides C23.  Builds the explorer twice: over a copy of /repo instrumented with scheduling points,
# and over /repo itself with the race detector for the free-running companion run.
set -u
cd "$(dirname "$0")/mc" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cmd=run
if [ "${1:-}" = replay ]; then cmd=replay; shift; fi
tmp="$(mktemp -d /tmp/mc-conc-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
dir="$(dirname "$PWD")"
sched=1
go run ./cmd/inst /repo "$tmp/jin" >"$tmp/inst.log" || sched=0
sed "s#=> /repo#=> $tmp/jin#" go.mod >"$tmp/go.mod"
touch "$tmp/go.sum"
if [ $sched = 1 ]; then
	go build -modfile="$tmp/go.mod" -tags sched -o "$tmp/mc" ./cmd/mc || sched=0
fi
if [ $sched = 0 ]; then
	# the package uses something the scheduler cannot control: the free-running exploration of every pair decides alone
	echo "mc: C23 without the scheduler, see DESIGN.md" >&2
	go build -race -tags c23race -o "$tmp/mcr" ./cmd/mc || { echo "mc: build failed" >&2; exit 2; }
	GORACE="halt_on_error=1 exitcode=66" "$tmp/mcr" $cmd C23 -dir "$dir" "$@"
	exit $?
fi
if [ $cmd = replay ]; then "$tmp/mc" replay C23 -dir "$dir" "$@"; exit $?; fi
race=0
if go build -race -tags c23race -o "$tmp/mcr" ./cmd/mc 2>"$tmp/race.log"; then
	mkdir "$tmp/rd"; cp "$dir/known_findings.txt" "$tmp/rd"
	GORACE="halt_on_error=1 exitcode=66" "$tmp/mcr" run C23 -dir "$tmp/rd" -evidence "$tmp/race.json" >"$tmp/race.out" 2>"$tmp/race.err"
	race=$?
	if [ $race = 1 ]; then
		mkdir -p "$dir/replays"
		for f in "$tmp/rd/replays"/*; do cp "$f" "$dir/replays/race-$(basename "$f")"; done
		sed "s#$tmp/rd/replays/#$dir/replays/race-#" "$tmp/race.out"
	fi
	[ $race -le 1 ] || { echo "mc: race run ended with $race, its findings are left out" >&2; cat "$tmp/race.err" >&2; rm -f "$tmp/race.json"; }
fi
# with a verdict at hand, the schedules only add detail
[ $race = 1 ] && export VERIF_SECS=60
MC_RACE="$tmp/race.json" "$tmp/mc" run C23 -dir "$dir" "$@"
rc=$?
if [ $race = 1 ] && [ $rc = 0 ]; then rc=1; fi
exit $rc
