#!/bin/bash
# check.sh ID: decide property ID on /repo's working tree (exit 0 held, 1 violated, 2 no answer)
exec python3 "$(dirname "$0")/tools/check.py" "$1"
