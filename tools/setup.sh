#!/bin/bash
# Nothing to build: checks the interpreter and byte-compiles nothing.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy, poap, pyDOE2, dill, sklearn" && echo ok
