#!/bin/bash
# Nothing to build (pure Python); says early if an interpreter or library the checks need is not there.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" SCRATCH=/tmp /opt/venv/bin/python -c '
import numpy, pyspark, tqdm, nlcodec, mon.core, mon.gen, mon.oracle, mon.build
print("python and libraries are there")' && java -version >/dev/null 2>&1
