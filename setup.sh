#!/bin/bash
# Warms the build cache; the checks build what they need themselves.
cd "$(dirname "$0")/harness" || exit 2
. /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/vrun" ./cmd/vrun && go build -race -o "$d/vrun-race" ./cmd/vrun
