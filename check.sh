#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]   or   check.sh -replay FILE   or   check.sh -build
V="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off HOME="${HOME:-/root}"
build() {
  mkdir -p "$V/bin"
  exec 9>"$V/bin/.lock"
  flock 9
  if [ ! -x "$V/bin/symgo" ] || [ -n "$(find "$V/engine" -name '*.go' -newer "$V/bin/symgo" -print -quit)" ]; then
    (cd "$V/engine" && GOFLAGS=-mod=mod go build -o "$V/bin/symgo.tmp" . && mv "$V/bin/symgo.tmp" "$V/bin/symgo") || exit 2
  fi
  exec 9>&-
}
build
case "$1" in
  -build) exit 0 ;;
  -replay) exec "$V/bin/symgo" -verif "$V" -repo /repo -replay "$2" ;;
esac
exec "$V/bin/symgo" -verif "$V" -repo /repo -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" $VERIF_FLAGS
