#!/bin/bash
# Checks that everything needed builds; each check builds what it runs itself.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
cp -r harness "$bin/src" && cd "$bin/src" && go build -o "$bin/harness" . && "$bin/harness" list
