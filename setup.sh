#!/bin/bash
# Builds the engine from the committed sources, offline.
cd "$(dirname "$0")/engine" || exit 2
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/symgo .
