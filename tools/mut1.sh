#!/bin/bash
# mut1.sh FILE SED-EXPRESSION ID...: one hand-made mutant (sed script applied to FILE of /repo) against checks
F=$1; X=$2; shift 2; T=$(mktemp -d /tmp/mut1XXXXXX); mkdir -p "$T/a/$(dirname "$F")" "$T/b/$(dirname "$F")"; cp "/repo/$F" "$T/a/$F"; sed "$X" "/repo/$F" > "$T/b/$F"
(cd "$T" && diff -u "a/$F" "b/$F" > p.diff); [ -s "$T/p.diff" ] || echo "no change"; "$(dirname "$0")/try.sh" "$T/p.diff" "$@"; rm -rf "$T"
