#!/bin/bash
# Builds the checker offline (module cache only).
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off CGO_ENABLED=0
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin" && cd "$here/checker" && go build -o "$here/bin/vgcheck" .
