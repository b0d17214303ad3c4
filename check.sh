#!/bin/bash
# usage: check.sh <property id>
exec python3 "$(dirname "$0")/tools/check.py" "$@"
