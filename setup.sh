#!/bin/bash
# Nothing has to be prepared: every check builds what it needs itself.
# This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3'
RUSTUP_TOOLCHAIN=stable cargo --version
mkdir -p evidence out
