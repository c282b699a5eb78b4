#!/bin/sh
# check.sh <property> quick|thorough: decides one property on /repo's working tree.
cd "$(dirname "$0")/sim" || exit 3
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GO111MODULE=on
export VERIF_ROOT="$(cd .. && pwd)"
bin="$(mktemp -d /tmp/simcheck-XXXXXX)" || exit 3
trap 'rm -r -f "$bin"' EXIT
go build -trimpath -o "$bin/simcheck" ./cmd/simcheck || exit 3
cmd=check
[ "$1" = replay ] && { cmd=replay; shift; }
"$bin/simcheck" $cmd "$@"
