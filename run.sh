#!/bin/bash
# run.sh MODULE [ARGS]: run one check with the project's interpreter, deterministically.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD:${VERIF_REPO:-/repo}/src
unset REACTPY_DEBUG REACTPY_ASYNC_RENDERING REACTPY_MAX_QUEUE_SIZE REACTPY_PATH_PREFIX
exec /opt/venv/bin/python -m "checks.$@"
