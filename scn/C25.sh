#!/bin/bash
exec python3 "$(dirname "$0")/../tools/multi.py" C25 "$(dirname "$0")/C25.json" "$@"
