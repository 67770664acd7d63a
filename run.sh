#!/bin/bash
# Builds the harness against /repo's working tree and runs one property's check.
#   run.sh ID            VERIF_TIER=quick|thorough, VERIF_SEED=n
#   run.sh replay FILE   runs the case of a replay file again
set -u
root=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build} GOMODCACHE=${GOMODCACHE:-$HOME/go/pkg/mod}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
export VERIF_ROOT=$root VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
id=$1
export CGO_ENABLED=0
race=
if [ "$id" = P13 ]; then race=-race CGO_ENABLED=1; fi
if ! (cd "$root/harness" && go build $race -o "$tmp/vrun" ./cmd/vrun) >"$tmp/build.log" 2>&1; then
	echo "the harness does not build against /repo:"
	cat "$tmp/build.log"
	exit 2
fi
export TMPDIR=$tmp
if [ "$id" = replay ]; then
	"$tmp/vrun" replay "$2"
else
	"$tmp/vrun" check "$id"
fi
