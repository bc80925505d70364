#!/bin/bash
# setup.sh: builds the analyzer once, so that the checks find a warm build cache
verif=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p "$verif/evidence"
cd "$verif/analyzer" && GOFLAGS=-mod=vendor go build -o /dev/null .
