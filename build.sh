#!/bin/bash
# builds the encoder; the checks call it again when it is missing
cd "$(dirname "$0")/engine" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/engine .
