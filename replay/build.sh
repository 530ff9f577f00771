#!/bin/bash
# build.sh OUTDIR [san]: compile /repo's current sources and the replay programs into OUTDIR (objects reused by content hash)
set -e
OUT=$1; SAN=$2; REPO=${REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
exec python3 "$HERE/build.py" "$REPO" "$OUT" "$SAN"
