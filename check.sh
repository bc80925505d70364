#!/bin/bash
# check.sh <property> [quick|thorough]: builds the analyzer and decides one property of /repo's current tree
id=$1
tier=${2:-${VERIF_TIER:-quick}}
verif=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
bin=$(mktemp -d /tmp/yarqlcheck.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
if ! (cd "$verif/analyzer" && GOFLAGS=-mod=vendor go build -o "$bin/yarqlcheck" .); then
	echo "the analyzer doesn't build"
	exit 2
fi
YARQL_VERIF=$verif timeout 840 "$bin/yarqlcheck" "$id" "$tier"
code=$?
if [ $code -ne 0 ] && [ $code -ne 1 ]; then
	mkdir -p "$verif/evidence"
	echo "the analysis of $id ended with $code" >"$verif/evidence/$id.replay.json"
	echo "VIOLATION property=$id replay=$verif/evidence/$id.replay.json"
	exit 1
fi
exit $code
