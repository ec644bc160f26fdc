#!/bin/bash
# usage: run.sh <property-id> [quick|thorough]      run a check
#        run.sh replay <file.json>                   replay a recorded violation
#        run.sh determinism [ids...]                 prove the simulator is deterministic
# Everything runs from /repo's working tree; nothing is written outside /verif/evidence,
# /verif/replays and a scratch directory that is removed again.
cd "$(dirname "$0")" || exit 2
export PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TQDM_DISABLE=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
SCRATCH="$(mktemp -d /tmp/verif-sim.XXXXXX)" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
export SIM_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" TMPDIR="$SCRATCH"
mkdir -p "$MPLCONFIGDIR"
/opt/venv/bin/python -W ignore -m sim "$@"
exit $?
