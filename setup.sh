#!/bin/bash
# Compiles the monitors once so that later builds find a warm cache.
here="$(cd "$(dirname "$0")" && pwd)"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$here/harness" && go build -o /dev/null . && go build -race -o /dev/null . 
cd /repo && GOFLAGS=-mod=readonly go build -o /dev/null ./buildifier && GOFLAGS=-mod=readonly go build -o /dev/null ./buildozer
