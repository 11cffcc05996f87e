#!/bin/bash
# Builds the framework once from the committed files (and /repo's tree) to see that it builds here, and warms the go build cache
HERE=$(cd "$(dirname "$0")" && pwd)
TMP=$(mktemp -d /tmp/simsetup.XXXXXX) || exit 1
trap 'rm -rf "$TMP"' EXIT
bash "$HERE/build.sh" "$TMP"
