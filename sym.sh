#!/bin/bash
# sym.sh BINARY: symbolises backtrace lines of a replay on stdin
B=$1
while IFS= read -r l; do
  echo "$l"
  case "$l" in *backtrace:*|*"blocked at:"*)
    for a in $(grep -o '0x5555[0-9a-f]*' <<<"$l"); do addr2line -Cfpse "$B" $(printf '0x%x' $((a-0x555555554000-1))); done | sed 's/^/      /' ;;
  esac
done
