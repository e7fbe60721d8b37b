#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property for the current source of /repo.
# Builds the analyser from /verif/checker when needed; exit 0 held, 1 violated.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod
mkdir -p "$here/bin" "$here/evidence"
bin=$here/bin/wfdlint
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -name '*.go' -print -quit)" ]; then
  (cd "$here/checker" && GOFLAGS=-mod=readonly go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the analyser" >&2; exit 2; }
fi
[ "$id" = build ] && exit 0
exec "$bin" -repo "${VERIF_REPO:-/repo}" -verif "$here" -check "$id" -tier "$tier"
