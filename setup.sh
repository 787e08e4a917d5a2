#!/bin/sh
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p bin evidence replay
cd govc && go build -o ../bin/govc .
