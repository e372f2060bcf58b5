#!/bin/bash
# usage: try.sh PATCH PROPERTY...   analyses a scratch copy of /repo with PATCH applied
set -eu
patch="$(realpath "$1")"; shift
d="$(mktemp -d /tmp/try.XXXXXX)"
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
git -C "$d/repo" apply "$patch"
mkdir -p "$d/v"; cp /verif/known-findings.txt "$d/v/" 2>/dev/null || true
VERIF_REPO="$d/repo" VERIF_DIR="$d/v" /verif/bin/verifchk "$@"
