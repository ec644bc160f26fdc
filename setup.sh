#!/bin/bash
# Nothing to build: the checks are Python and import the code from /repo. Verify the tools are there.
cd "$(dirname "$0")" || exit 2
chmod +x run.sh
T="$(mktemp -d /tmp/verif-setup.XXXXXX)" || exit 2
trap 'rm -rf -- "$T"' EXIT
PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR="$T" MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo')
import numpy, scipy, sklearn, pandas, torch, obp
print('numpy', numpy.__version__, 'sklearn', sklearn.__version__, 'torch', torch.__version__, 'obp', obp.__file__)"
