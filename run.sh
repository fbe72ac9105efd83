#!/bin/bash
# run.sh PROPERTY   decide one property on /repo's current working tree
# run.sh --build    only build the analyzer
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off
bin="$here/bin/analyzer"
mkdir -p "$here/bin" "$here/evidence"
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -maxdepth 1 -newer "$bin" -print -quit)" ]; then
  (cd "$here/analyzer" && go build -o "$bin.tmp.$$" . && mv "$bin.tmp.$$" "$bin") || { echo "cannot build the analyzer" >&2; exit 2; }
fi
[ "$1" = "--build" ] && exit 0
unset GOFLAGS
exec "$bin" -prop "$1" -repo "${VERIF_REPO:-/repo}" -verif "$here"
