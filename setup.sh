#!/bin/bash
# builds every variant of the compiled extensions the checks use (they rebuild by themselves when the tree changes)
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, 'lib')
import build
for v in build.VARIANTS:
    build.build(v); print('built', v)
"
