#!/bin/sh
# Nothing to build: the checks are Python and read /repo's sources directly.  Verify that the tools are there.
set -e
cd "$(dirname "$0")"
python3-vt -B -c "import z3, ast; print('z3', z3.get_version_string())"
/opt/venv/bin/python -B -c "import base58, ecdsa, scrypt, Crypto; print('native python ok')"
mkdir -p evidence/replay
