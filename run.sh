#!/bin/sh
# run.sh PROPERTY quick|thorough  -- decide one property
# run.sh replay FILE              -- re-execute a recorded violation
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$here"
export GOPROXY=off GOTOOLCHAIN=local
cd "$here/sim" || exit 2
tool=$(mktemp -d) || exit 2
GOFLAGS= go build -o "$tool/check" ./cmd/check || { rm -rf "$tool"; exit 2; }
cd "$here" || exit 2
"$tool/check" "$@"
rc=$?
rm -rf "$tool"
exit $rc
