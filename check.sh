#!/bin/bash
# check.sh ID [quick|thorough]: builds the engine and decides property ID on /repo's current tree
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$V"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
(cd "$V/engine" && CGO_ENABLED=0 go build -o "$V/bin/engine" .) || exit 2
exec "$V/bin/engine" check "$@"
