#!/bin/bash
# Builds the tool and one instrumented test binary, to fill the Go build cache.
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
exec bash "$D/run.sh" build
