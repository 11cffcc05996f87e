#!/bin/bash
# Generates the simulated build of the repository's current tree into $1 and compiles the harness to $1/sim.bin
# SIM_RACE=1: with the marks of the data race detector
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 HOME=${HOME:-/root}
export GOFLAGS=
mkdir -p "$OUT"
(cd "$HERE/rewriter" && go build -o "$OUT/rewriter" .)
G=$OUT/gen
mkdir -p "$G"
M=github.com/solarisdb/solaris
"$OUT/rewriter" ${SIM_RACE:+-race} -repo "$REPO" -out "$G" -roots ./pkg/api,./pkg/api/rest,./pkg/storage/buntdb,./pkg/storage/cache,./pkg/storage/logfs,./pkg/storage/chunkfs,./golibs/context,./golibs/chans,./golibs/files,./golibs/timeout,./golibs/ulidutils,./golibs/container,./golibs/container/bytes,./golibs/container/iterable,./golibs/container/lru,./golibs/sss,./golibs/sss/inmem,./golibs/sync,./golibs/kvs,./golibs/kvs/inmem,./golibs/kvs/redis,./golibs/kvs/distlock,./pkg/storage/postgres
rm -rf "${G:?}/zsim" "${G:?}/zharness"
cp -r "$HERE/sim" "$G/zsim"
[ -d "$HERE/harness" ] && cp -r "$HERE/harness" "$G/zharness"
cd "$G"
export GOFLAGS=-mod=mod
if [ -d zharness ]; then go build -trimpath -o "$OUT/sim.bin" ./zharness; else go build ./...; fi
