#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyser from /verif/sa (vendored, offline) and runs one property's
# rule over the current source of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export VERIF_DIR="$here"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/sa" && GOFLAGS=-mod=vendor go build -o "$here/bin/jxlsa.$$" . && mv "$here/bin/jxlsa.$$" "$here/bin/jxlsa"); then
  echo "analyser does not build" >&2
  exit 2
fi
[ "$1" = build ] && exit 0
exec "$here/bin/jxlsa" "$1" "${JXL_REPO:-/repo}"
