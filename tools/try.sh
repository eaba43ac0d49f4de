#!/bin/bash
# try.sh PATCH ID...: run checks (built from a scratch copy of /repo with PATCH applied; -R first reverts a commit: try.sh -c COMMIT ID...)
set -e
D=$(mktemp -d /tmp/tryXXXXXX); cp -r /repo/include /repo/src "$D"/
if [ "$1" = -c ]; then git -C /repo show "$2" -- include src | (cd "$D" && patch -s -R -p1); shift 2; else [ "$1" = none ] || { P=$(readlink -f "$1"); (cd "$D" && patch -s -p1 < "$P"); }; shift; fi
H=$(dirname "$(dirname "$(readlink -f "$0")")"); mkdir -p "$D/w/out" "$D/w/evidence"; cp "$H/known-findings.txt" "$D/w/"
for i in "$@"; do
  if [ -f "$H/scn/$i.sh" ]; then VERIF_REPO=$D VERIF_BUILD=$D/b-$i VERIF_ROOT=$D/w "$H/scn/$i.sh" --seed ${VERIF_SEED:-1} --no-shrink 2>&1 | cut -c1-220 | grep -E "VIOLATION|failing|cases|error" | sed "s/^/$i: /" || true; continue; fi
  VERIF_REPO=$D "$H/build.sh" "$D/b-$i" "$i" > "$D/log" 2>&1 || { echo "$i: build failed"; grep -m3 error "$D/log"; continue; }
  timeout 850 "$D/b-$i/$i" --root "$D/w" --seed ${VERIF_SEED:-1} --no-shrink $TRYOPT 2>&1 | cut -c1-220 | grep -E "VIOLATION|failing|cases" | sed "s/^/$i: /" || true
done
rm -rf "$D"
