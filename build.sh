#!/bin/bash
# Builds the checker from the committed sources, offline.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
cd "$(dirname "$0")/engine" || exit 2
exec go build -o ../bin/symgo .
