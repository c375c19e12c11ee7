#!/bin/bash
# build.sh OUTDIR : compile the harness test binary from /repo's working tree
H="$(dirname "$(readlink -f "$0")")"
O="$(readlink -f -m "$1")"; mkdir -p "$O"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
python3 "$H/mkoverlay.py" "$O" || exit 3
cd "${ZZ_REPO:-/repo}"
go test -c -modfile "$O/go.mod" -overlay "$O/overlay.json" -vet=off -o "$O/zz.test" ./cmd
