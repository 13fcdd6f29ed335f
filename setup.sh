#!/bin/bash
# nothing to build: check the tools the verifier uses
cd "$(dirname "$0")" || exit 1
chmod +x check.sh
clang++ --version >/dev/null || clang++-18 --version >/dev/null || exit 1
python3-vt -c 'import z3' || exit 1
mkdir -p evidence
exit 0
