#!/bin/bash
# Compiles the harness once, so that the build cache is warm. The checks build for themselves.
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOWORK=off GOSUMDB=off
cd "$here/harness" || exit 2
tmp=$(mktemp -d /tmp/verif-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/harness" . && CGO_ENABLED=1 go build -race -o "$tmp/harness-race" .
