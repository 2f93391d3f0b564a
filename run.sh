#!/bin/bash
# Usage: run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--cases N]
# Runs the monitors of one property against the code of /repo (working tree).
cd "$(dirname "$(readlink -f "$0")")" || exit 3
VERIF="$PWD"
REPO="${VERIF_REPO:-/repo}"
# scratch in memory when there is room (much faster), else on disk
base=/tmp
if [ -w /dev/shm ] && [ "$(df --output=avail -B1M /dev/shm 2>/dev/null | tail -1)" -gt 4000 ] 2>/dev/null; then base=/dev/shm; fi
SCRATCH="$(mktemp -d "$base/nlv.XXXXXXXX")" || SCRATCH="$(mktemp -d /tmp/nlv.XXXXXXXX)" || exit 3
cleanup() { rm -rf -- "$SCRATCH"; }
trap cleanup EXIT
trap 'exit 3' INT TERM
export VERIF REPO SCRATCH
export TMPDIR="$SCRATCH"
export HOME="$SCRATCH"
export PATH="/opt/venv/bin:$PATH"
export PYTHONPATH="$REPO:$VERIF"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc"
export PYTHONUTF8=1
export PYTHONHASHSEED=0
export TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYSPARK_PYTHON=/opt/venv/bin/python PYSPARK_DRIVER_PYTHON=/opt/venv/bin/python
export SPARK_LOCAL_IP=127.0.0.1 SPARK_LOCAL_HOSTNAME=localhost
export SPARK_LOCAL_DIRS="$SCRATCH"
export JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=$SCRATCH -XX:-UsePerfData"
unset NLCODEC_THREADS SPARK_MASTER SPARK_DRIVER_MEM
/opt/venv/bin/python -m mon.main "$@"
