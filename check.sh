#!/bin/bash
# usage: check.sh build | check.sh <property> [tier]
# Builds the analyser (offline, from the vendored sources) and runs the check of
# one property on the current tree of /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0
mkdir -p "$here/bin" || exit 2
( cd "$here/checker" && go build -o "$here/bin/ruddcheck" . ) || { echo "the analyser does not build" >&2; exit 2; }
[ "$1" = build ] && exit 0
unset GOFLAGS
exec "$here/bin/ruddcheck" -prop "$1" -tier "${2:-quick}" -repo /repo -out "$here/evidence" -known "$here/known_findings.txt"
