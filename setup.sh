#!/bin/sh
# builds the checker from the committed sources and warms the build cache
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
mkdir -p bin evidence
(cd gosym && go build -o ../bin/gosym .) || exit 2
./bin/gosym -list >/dev/null
