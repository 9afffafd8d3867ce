#!/bin/bash
# usage: run.sh build | run.sh check ID ; run in /verif
D="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export GOFLAGS= GOWORK=off GOTOOLCHAIN=local GOPROXY=off
export VERIF_DIR="$D"
BIN="$D/bin/an"
build() {
  mkdir -p "$D/bin" || return 1
  (cd "$D/analyzer" && go build -mod=vendor -o "$BIN.$$" . ) && mv -f "$BIN.$$" "$BIN"
}
case "$1" in
build) build ;;
check)
  if [ ! -x "$BIN" ] || [ -n "$(find "$D/analyzer" -newer "$BIN" -type f -print -quit)" ]; then
    build || { echo "cannot build the analyzer"; exit 2; }
  fi
  exec "$BIN" check "$2" ;;
*) echo "usage: run.sh build | check ID"; exit 2 ;;
esac
