#!/bin/bash
# builds the engine, offline, from the committed files
set -eu
V=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p "$V/bin" "$V/evidence"
cd "$V/engine" && go build -o "$V/bin/engine" .
