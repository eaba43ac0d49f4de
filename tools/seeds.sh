#!/bin/bash
# seeds.sh [ID...]: tries every planted change against the check of its property (in scratch copies), one line each
cd "$(dirname "$0")/.."
for s in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  o=$(tools/try.sh seeded/$s/patch.diff $p 2>&1)
  if grep -q VIOLATION <<<"$o"; then r="caught: $(grep -m1 failing <<<"$o" | sed 's/.*failing case: //' | cut -c1-110)"; else r="MISSED $(tail -1 <<<"$o" | cut -c1-120)"; fi
  echo "$s | $p | $r"
done
