#!/bin/bash
# Offline: puts hypothesis beside the checks (the project's own venv does not have it).
set -e
cd "$(dirname "$0")"
if ! PYTHONPATH=.deps /opt/venv/bin/python -c 'import hypothesis' 2>/dev/null; then
    /usr/bin/env rm -rf "$PWD/.deps"
    /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis sortedcontainers \
        2>/dev/null || python3 -m pip install -q --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis sortedcontainers
fi
PYTHONPATH=.deps /opt/venv/bin/python -c 'import hypothesis; print("hypothesis", hypothesis.__version__)'
