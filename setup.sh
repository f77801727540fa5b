#!/bin/sh
# Nothing is compiled: the checks import the code from /repo. This only shows that the interpreter and libraries are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B -c "import Crypto, sqlalchemy, bcrypt, sys; assert sys.version_info >= (3, 12)"
mkdir -p evidence
