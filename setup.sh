#!/bin/bash
# nothing to build: checks the tools the verifier needs
set -e
cd "$(dirname "$0")"
/usr/bin/clang++-18 --version | head -1
/usr/bin/opt-18 --version | grep -m1 version
g++ --version | head -1
/opt/veriftools/pyvenv/bin/python3 -c "import sys; sys.path[:0]=['.','specs']; import z3, irvc.unit, catalog; print('z3', z3.get_version_string(), len(catalog.PROPS), 'properties')"
mkdir -p evidence
