#!/bin/sh
# setup.sh: builds the verifier from the committed sources, offline.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/gov" || exit 1
newest=$(find . -name '*.go' -newer ../bin/gov 2>/dev/null | head -1)
[ -x ../bin/gov ] && [ -z "$newest" ] && exit 0
mkdir -p ../bin
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/gov.$$ . && mv ../bin/gov.$$ ../bin/gov
