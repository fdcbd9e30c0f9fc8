#!/bin/bash
# Builds the analyser from the committed sources into /verif/bin (git-ignored).
set -e
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/analyzer .
