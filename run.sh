#!/bin/bash
# usage: run.sh check ID quick|thorough | replay FILE
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$D"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
(cd "$D/tool" && GOFLAGS=-mod=mod go build -buildvcs=false -o "$T/vtool" .) || exit 2
"$T/vtool" "$@"
