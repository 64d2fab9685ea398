#!/bin/sh
# Nothing to compile: the specifications are parsed and the code is imported to fail early.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, 'harness'); import vf" || exit 2
java -version >/dev/null 2>&1 || exit 2
exit 0
