#!/bin/bash
# Warms the build cache; the checks build for themselves.
root=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
cd "$root/harness" && CGO_ENABLED=0 go build -o /dev/null ./cmd/vrun && CGO_ENABLED=1 go build -race -o /dev/null ./cmd/vrun
