#!/bin/bash
# check.sh Cxx [quick|thorough]   decide one property on /repo's current tree
# check.sh replay FILE            replay a recorded violation on the real code
# check.sh setup                  build everything once (warms the Go build cache)
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off GO111MODULE=on
unset GODEBUG GOEXPERIMENT
tmp="$(mktemp -d /tmp/gosym-bin.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$root/engine" && CGO_ENABLED=0 go build -o "$tmp/gosym" .) || { echo "ERROR building the engine"; exit 2; }
case "${1:-}" in
setup)
  (cd "$root/harness" && CGO_ENABLED=0 go build ./... ) || exit 2
  exit 0;;
replay)
  "$tmp/gosym" -root "$root" -replay "$2"
  exit $?;;
C*)
  "$tmp/gosym" -root "$root" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
  exit $?;;
*) echo "usage: check.sh Cxx [quick|thorough]"; exit 2;;
esac
