#!/bin/bash
# nothing to compile: the checks run the sources in /repo directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -B -c "import numpy, numba, dask, scipy" || exit 1
echo ok
