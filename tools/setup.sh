#!/bin/bash
# Builds the verifier once to show that it builds offline; every check builds its own copy.
set -e
cd "$(dirname "$0")/../govc"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
t=$(mktemp -d)
go build -o "$t/govc" .
rm -r "$t"
echo "govc builds"
