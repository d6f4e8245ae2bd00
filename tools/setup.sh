#!/bin/bash
# warms the Go build cache; every check also builds the analyser itself
cd "$(dirname "$0")/../analyzer" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
go vet . && go build -o /dev/null .
