#!/bin/bash
# build.sh OUTDIR SCENARIO [extra compile flags...]: builds the checker for one property from /repo's working tree
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=$1; SCN=$2; shift 2
mkdir -p "$OUT"
NUMA=; case $SCN in C16|C21|C24) NUMA=1;; esac; [ -z "$VERIF_NUMA" ] || NUMA=1
exec make -s -f "$HERE/rt/Makefile" -j"$(nproc)" HERE="$HERE" REPO="$REPO" OUT="$OUT" SCN="$SCN" NUMA="$NUMA" EXTRA="$*" "$OUT/$SCN"
