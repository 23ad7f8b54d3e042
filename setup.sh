#!/bin/bash
# Nothing to build: the specification is interpreted by TLC, the harness by Python.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
/opt/venv/bin/python - <<'PY'
import numpy, dask, click
PY
cd spec
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY SetStore.tla >/dev/null
echo setup ok
