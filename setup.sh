#!/bin/bash
# builds the verifier from the committed sources, offline
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
mkdir -p bin evidence replays
cd gover && go build -o ../bin/gover .
