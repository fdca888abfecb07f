#!/bin/bash
# Builds the monitor (plain and with the race detector) to warm the caches.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p build evidence
cd harness || exit 2
CGO_ENABLED=0 go build -o "$V/build/ocmon" . || exit 1
CGO_ENABLED=1 go build -race -o "$V/build/ocmon-race" . || exit 1
