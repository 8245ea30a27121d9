#!/bin/bash
# Builds the simulators from /repo's working tree into $1 (default /verif/build).
# usage: build.sh OUTDIR [io|thr|all]
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${SIM_REPO:-/repo}
OUT=${1:-$V/build}
WHAT=${2:-all}
mkdir -p "$OUT"
exec make -s -f "$V/tools/sim.mk" -j"$(nproc)" V="$V" REPO="$REPO" OUT="$OUT" "$WHAT"
