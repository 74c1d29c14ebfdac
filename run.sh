#!/bin/bash
# run.sh CHECK [--tier quick|thorough] [--replay FILE] [--sub NAME]
cd "$(dirname "$0")" || exit 3
[ -d .deps/hypothesis ] || bash setup.sh >/dev/null || exit 3
export PYTHONPATH="$PWD/.deps:$PWD/stubs:$PWD:${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python -m vf.main "$@"
