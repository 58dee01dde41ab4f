#!/bin/bash
# Builds the analyzer offline from vendored sources into /verif/bin (git-ignored).
cd "$(dirname "$0")/analyzer" || exit 1
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
if [ -z "$HOME" ]; then export HOME=/tmp; fi
mkdir -p ../bin
exec go build -o ../bin/analyzer .
