#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOFLAGS='-mod=mod'
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
unset XMLWRITER_SKIP_MOD
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
cp -r harness "$bin/src" || exit 2
( cd "$bin/src" && go build -o "$bin/harness" . ) || { echo "check error: the harness does not build" >&2; exit 2; }
if [ "$1" = C22 ]; then
	( cd "$bin/src" && CGO_ENABLED=1 go build -race -o "$bin/harness.race" . ) || { echo "check error: the race build failed" >&2; exit 2; }
fi
if [ "$1" = replay ]; then
	"$bin/harness" replay "$(realpath "$2")"
else
	"$bin/harness" run "$1" "${2:-${VERIF_TIER:-quick}}"
fi
