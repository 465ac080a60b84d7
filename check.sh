#!/bin/bash
# Run the check of one property against the working tree of /repo.
#   check.sh P01              decide property P01 (VERIF_SEED, VERIF_TIER)
#   check.sh P01 --replay F   run one saved case again
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
unset PYTHONHOME PYTEST_ADDOPTS NUMBA_DISABLE_JIT
work="$(mktemp -d)" || exit 2
trap 'rm -rf "${work:?}"' EXIT
export PYTHONPATH="$here:/repo" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=Agg MPLCONFIGDIR="$work/mpl" CI=1
# a fresh cache each run: never an old build of the code
export NUMBA_CACHE_DIR="$work/numba" NUMBA_NUM_THREADS=2 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export HYPOTHESIS_STORAGE_DIRECTORY="$work/hypothesis"
export VERIF_WORK="$work" VERIF_HOME="$here"
cd "$here" || exit 2
python -m pbt.run "$@"
exit $?
