#!/bin/bash
cd /verif/gover && GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local go build -o ${1:-/tmp/gover} .
