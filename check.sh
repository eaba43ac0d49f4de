#!/bin/bash
# check.sh ID [--replay FILE | other engine options]: rebuild from /repo and decide property ID.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
cd "$HERE" || exit 2
mkdir -p build out evidence
exec 9> "build/.lock-$ID"; flock 9
LOG=build/$ID.log
export VERIF_SCRATCH=$(mktemp -d /dev/shm/vchkXXXXXX 2>/dev/null || mktemp -d /tmp/vchkXXXXXX); trap 'case $VERIF_SCRATCH in /tmp/vchk??????|/dev/shm/vchk??????) rm -rf "$VERIF_SCRATCH";; esac' EXIT
T=${VERIF_TIMEOUT:-$([ "${VERIF_TIER:-quick}" = thorough ] && echo 7200 || echo 840)}
if [ -x "scn/$ID.sh" ]; then timeout -k 10 $T "scn/$ID.sh" "$@"; rc=$?; [ $rc -eq 0 ] || [ $rc -eq 1 ] || exit 2; exit $rc; fi
if ! ./build.sh "$HERE/build/$ID" "$ID" > "$LOG" 2>&1; then
  echo "check error: the library or the checker does not build" >&2
  grep -m5 -E 'error|Error' "$LOG" >&2
  exit 2
fi
timeout -k 10 $T "build/$ID/$ID" --root "$HERE" "$@"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || exit 2
exit $rc
