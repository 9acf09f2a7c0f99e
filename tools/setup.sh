#!/bin/bash
# nothing is prebuilt (every check builds from /repo's working tree); only make sure the tools are there
set -e
for t in g++ clang++ python3; do command -v $t >/dev/null; done
cd "$(dirname "$0")/.."
mkdir -p build evidence replay
python3 -c "import sys; sys.path.insert(0,'bin'); import checks; print(len(checks.CHECKS), 'checks')"
