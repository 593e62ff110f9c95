#!/bin/sh
# nothing to install: checks that the tools the checks use are there
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo --version
