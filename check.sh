#!/bin/bash
# check.sh <property> <tier> — decides one property from /repo's current source.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.27.3/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GOROOT
bin="$here/bin/analyzer"
stale=1
if [ -x "$bin" ]; then
  stale=0
  for f in "$here"/analyzer/*.go; do [ "$f" -nt "$bin" ] && stale=1; done
fi
if [ "$stale" = 1 ]; then
  mkdir -p "$here/bin"
  (cd "$here/analyzer" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the analyzer" >&2; exit 2; }
fi
[ "$1" = setup ] && exit 0
export GOFLAGS=-mod=mod
exec "$bin" -repo "${VERIF_REPO:-/repo}" -root "${VERIF_ROOT:-$here}" -property "$1" -tier "${2:-quick}"
