#!/bin/bash
# builds the engine from the committed source (setup_cmd; also run by every check)
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=vendor GO111MODULE=on CGO_ENABLED=0
mkdir -p bin
cd gosym && go build -o ../bin/gosym . 
