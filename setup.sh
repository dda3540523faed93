#!/bin/sh
# Builds the driver and, once, the simulated twin, so that the Go build cache is warm.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$here" GOPROXY=off GOTOOLCHAIN=local
cd "$here/sim" || exit 2
mkdir -p "$here/evidence"
d=$(mktemp -d) || exit 2
GOFLAGS= go build -o "$d/check" ./cmd/check && "$d/check" build "$d/twin"
rc=$?
rm -rf "$d"
exit $rc
