#!/bin/bash
# Builds the symbolic executor (offline, from the committed sources).
set -e
cd "$(dirname "$0")/gosym"
mkdir -p ../bin ../out ../evidence
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o ../bin/gosym .
