#!/bin/bash
# run in the repository's root, after the build
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
[ -x /opt/veriftools/go1.23.12/bin/go ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOFLAGS=-mod=readonly
exec timeout 250 go run "$dir/demo.go"
