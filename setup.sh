#!/bin/bash
# Nothing has to be installed; checks the tools that are needed. The checks build /repo's working tree themselves.
set -e
for t in g++ ninja python3 git; do command -v $t > /dev/null || { echo "missing: $t"; exit 1; }; done
test -x /opt/vp/venv/bin/python
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/out"
