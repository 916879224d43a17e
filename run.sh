#!/bin/bash
# run.sh <property> [tier]: decide one property from /repo's current source.
set -u
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
BIN="$D/checker/bin/karbocheck"
build() {
  mkdir -p "$D/checker/bin" 2>/dev/null
  ( cd "$D/checker" && go build -o "$1" . ) 2>"${TMPDIR:-/tmp}/karbocheck.$$.log"
}
if [ ! -x "$BIN" ] || [ -n "$(find "$D/checker" -maxdepth 1 -name '*.go' -newer "$BIN" -print -quit)" ]; then
  if ! build "$BIN"; then
    T="$(mktemp -d)"; export GOCACHE="$T/cache"; BIN="$T/karbocheck"
    if ! build "$BIN"; then cat "${TMPDIR:-/tmp}/karbocheck.$$.log"; echo "checker build failed"; exit 2; fi
  fi
fi
rm -f "${TMPDIR:-/tmp}/karbocheck.$$.log"
[ "${1:-}" = "--build" ] && exit 0
export GOFLAGS=-mod=readonly
export KARBO_VERIF="$D"
[ $# -ge 2 ] && export VERIF_TIER="$2"
exec "$BIN" "$1"
