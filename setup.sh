#!/bin/bash
# Builds the analyser from the committed sources (vendored dependencies, no network).
cd "$(dirname "$0")/lincheck" || exit 1
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=vendor GOWORK=off
mkdir -p ../bin && go build -o ../bin/lincheck .
