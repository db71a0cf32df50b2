#!/bin/bash
# Builds the engine into /verif/bin (git-ignored). Offline.
set -e
here=$(cd "$(dirname "$0")" && pwd)
G=/opt/veriftools/go1.26.10
cd "$here/engine"
mkdir -p "$here/bin"
exec env GOROOT=$G PATH=$G/bin:$PATH GOMODCACHE=/root/go/pkg/mod GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB='*' GOWORK=off CGO_ENABLED=0 \
  go build -o "$here/bin/gosym" ./cmd/gosym
