#!/bin/bash
# check.sh <property> [tier] - builds the engine if needed and decides one property.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local
ROOT=$PWD
bin=$ROOT/bin/engine
if [ ! -x "$bin" ] || [ -n "$(find engine -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p bin
  (cd engine && CGO_ENABLED=0 go build -o "$bin" .) || exit 2
fi
[ "$1" = build ] && exit 0
exec "$bin" -root "$ROOT" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
