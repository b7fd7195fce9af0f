#!/bin/bash
# Builds the engine and the native replay programs from the current trees.
# usage: setup.sh [race]
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOEXPERIMENT=arenas
mkdir -p bin
(cd engine && go build -o ../bin/symgo .)
(cd harness && ./gen.sh && go build -o ../bin/replay ./replay)
if [ "$1" = race ]; then (cd harness && go build -race -gcflags=all=-d=checkptr=0 -o ../bin/replay-race ./replay); fi
