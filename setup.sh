#!/bin/bash
# Builds every check once (warms the Go build cache; checks rebuild anyway).
cd "$(dirname "$0")/mc" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
go build -o /dev/null ./... || go vet ./core
