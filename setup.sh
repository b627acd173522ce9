#!/bin/sh
# Checks build themselves from /repo; setup only verifies the tool chain.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3 -c "import check; print(len(check.CHECKS), 'checks registered')"
mkdir -p build evidence replay
