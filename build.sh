#!/bin/bash
# builds the verifier from the committed sources
cd "$(dirname "$0")/govc" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p ../bin && go build -o ../bin/govc . 
