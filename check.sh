#!/bin/bash
# usage: check.sh PROPERTY   (run in /verif; analyses /repo's current tree)
cd "$(dirname "$0")/checker" || exit 2
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH="$d:$PATH" && break; done
export PATH GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
if ! go build -o "$bin/checker" . ; then echo "checker does not build"; exit 2; fi
"$bin/checker" -repo "${VERIF_REPO:-/repo}" -verif "${VERIF_OUT:-$(cd .. && pwd)}" -prop "$1"
