#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the harness against /repo's working tree and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
scratch="$(mktemp -d /tmp/yverif.XXXXXX)" || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
(cd "$here/harness" && go build -o "$scratch/harness" . && go build -o "$scratch/probe" ./probe) >"$scratch/build.log" 2>&1 &&
(cd /repo && go build -o "$scratch/yisp" .) >>"$scratch/build.log" 2>&1 ||
  { cat "$scratch/build.log"; echo "the harness does not build against /repo"; exit 2; }
[ "$1" = --setup ] && exit 0
VERIF_HOME="$here" VERIF_SCRATCH="$scratch" "$scratch/harness" check "$1" "${2:-quick}"
