#!/bin/bash
# usage: check.sh PROPERTY...   (run from anywhere; analyses /repo's working tree)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
export VERIF_DIR="$here"
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/checker" && GOFLAGS=-mod=vendor go build -o "$here/bin/verifchk" .) >"$here/bin/build.log" 2>&1; then
  cat "$here/bin/build.log" >&2
  exit 2
fi
[ "${1:-}" = --build ] && exit 0
exec "$here/bin/verifchk" "$@"
