#!/bin/bash
# Warms the build cache: the checks rebuild everything from /repo's working tree.
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
B=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'chmod -R u+w "$B" 2>/dev/null; rm -rf -- "$B"' EXIT
cp -r "$VERIF/harness" "$B/harness"
cd "$B/harness" && go build -o "$B/vh" . && go build -race -o "$B/vhr" .
