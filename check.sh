#!/bin/bash
# check.sh <property> <quick|thorough> [options of lib/run.py]
exec python3 -B "$(dirname "$(readlink -f "$0")")/lib/run.py" "$@"
