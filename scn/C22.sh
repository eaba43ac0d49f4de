#!/bin/bash
exec python3 "$(dirname "$0")/../tools/multi.py" C22 "$(dirname "$0")/C22.json" "$@"
