#!/bin/bash
# Nothing to prepare: every check builds what it needs from /repo. Only verify the tools.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
g++ --version >/dev/null && clang++ --version >/dev/null && python3 --version >/dev/null
echo "setup ok"
