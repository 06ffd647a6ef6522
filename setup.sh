#!/bin/bash
# Nothing has to be prepared: every check builds what it needs. This only
# verifies that the framework builds, and warms the build cache.
. /opt/vp/env.sh
cd "$(dirname "$(realpath "$0")")" || exit 1
go build -o /dev/null ./cmd/simdrv && go build -o /dev/null ./cmd/instrument && go vet ./gen ./draw ./simrt >/dev/null
