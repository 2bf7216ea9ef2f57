#!/bin/bash
# Builds everything once (warms the build cache); nothing is left behind outside the Go build cache.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false"
(cd /repo && GOFLAGS="-mod=mod -buildvcs=false" go build ./...)
(cd "$here/mc" && go build -o /dev/null .)
(cd "$here/mc" && go build -o /dev/null ./cmd/instr && CGO_ENABLED=1 go build -race -o /dev/null . || true)
t=$(mktemp -d)
(cd "$here/mc" && go run ./cmd/probe "$(go env GOROOT)" "$t") && (cd /repo && GOFLAGS="-mod=mod -buildvcs=false" go build -overlay "$t/overlay.json" -o /dev/null .) || true
rm -rf "$t"
mkdir -p "$here/evidence"
