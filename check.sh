#!/bin/sh
# check.sh PROPERTY: builds the checker (offline) and decides one property for /repo's current tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
mkdir -p bin evidence
(cd gosym && go build -o ../bin/gosym .) || exit 2
exec ./bin/gosym -verif "$(pwd)" -property "$1"
