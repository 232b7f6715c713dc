#!/bin/bash
# warms the build cache; every check rebuilds what it needs by itself
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
W=$(mktemp -d) || exit 1
( cd "$HERE/harness" && go build -o "$W/a" . && go build -race -o "$W/b" . ) || exit 1
( cd "${VERIF_REPO:-/repo}" && export GOFLAGS="-mod=readonly -buildvcs=false" && go build ./... && go build -race ./zkserver ./zkclient ) || true
chmod -R u+w "$W"; rm -rf "$W"
exit 0
