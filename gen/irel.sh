#!/bin/bash
# makes harness/irel.go, the released version's side of icur.go
cd "$(dirname "$0")/../harness" || exit 1
sed -e 's#companyzero/zkc/#companyzero/zkcreleased/#' -e 's/\bcur\b/rel/g; s/\bcurRatchet\b/relRatchet/g; s/\bcurAccounts\b/relAccounts/g; s/\bimplCur\b/implRel/g' \
	-e '/^\/\/ The libraries of the tree/,/^\/\/ released version/c // Made from icur.go by gen/irel.sh.' icur.go > irel.go
gofmt -l irel.go
