#!/bin/bash
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off
cd "$(dirname "$0")" && go vet . && go build -o govc .
