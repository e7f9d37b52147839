#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the monitors and midiasm from /repo's working tree and runs one check.
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GOFLAGS=-mod=mod
BUILD=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 3
trap 'chmod -R u+w "$BUILD" 2>/dev/null; rm -rf -- "$BUILD"' EXIT
mkdir -p "$VERIF/evidence"

RACE=
[ "$ID" = C13 ] && RACE=-race
cp -r "$VERIF/harness" "$BUILD/harness"
if ! (cd "$BUILD/harness" && go build $RACE -o "$BUILD/vh" .) >"$BUILD/log" 2>&1; then
  cat "$BUILD/log" >&2
  echo "cannot build the monitors against /repo" >&2
  exit 3
fi
if ! (cd /repo && go build $RACE -o "$BUILD/midiasm" ./cmd/midiasm) >"$BUILD/log" 2>&1; then
  cat "$BUILD/log" >&2
  echo "cannot build midiasm from /repo" >&2
  exit 3
fi
export MIDIASM="$BUILD/midiasm" TMPDIR="$BUILD"
export GORACE="halt_on_error=1"
"$BUILD/vh" -property "$ID" -tier "$TIER" -seed "$SEED" -verif "$VERIF"
RC=$?
exit $RC
