#!/bin/bash
# Nothing to install: checks that the interpreter, the compilers and the framework are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c 'import numpy, scipy, pandas, sklearn, Cython' || exit 1
gcc --version >/dev/null && g++ --version >/dev/null || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -c 'import vp.runner as r; print(sorted(r.modules()))'
