#!/bin/bash
# Builds the checker from the committed sources; offline.
cd "$(dirname "$0")" || exit 2
export HOME=/root
[ -d /opt/veriftools/go1.25.14/bin ] && export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
mkdir -p bin evidence work
cd engine && go build -o ../bin/vrun ./cmd/vrun
