#!/bin/bash
# Warms the build cache with the checker (with and without the race detector).
set -eu
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p .build evidence
cd pbt
go build -o ../.build/warm . && rm -f ../.build/warm
go build -race -o ../.build/warm . && rm -f ../.build/warm
