#!/bin/sh
# Warms the build cache for the simulator; every check builds what it needs from /repo's working tree itself.
cd "$(dirname "$0")/sim" || exit 1
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GO111MODULE=on
go vet ./vsim ./plan ./cmd/simcheck ./cmd/instr && go build -trimpath -o /dev/null ./cmd/simcheck
