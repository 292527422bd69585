#!/bin/bash
# build.sh OUTDIR: builds the simulator from /repo's working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
out=${1:-$here/../build}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod CGO_ENABLED=0 GOPROXY=off
mkdir -p "$out"
python3 "$here/gen_overlay.py" "$(go env GOROOT)" "$out" "$repo" "$here"
cd "$repo"
go build -buildvcs=false -overlay "$out/overlay.json" -o "$out/vsim" ./cmd/krypto431
