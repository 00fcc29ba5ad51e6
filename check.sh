#!/bin/bash
# check.sh <property id> [--tier quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
T=$(mktemp -d /tmp/vfcheck.XXXXXX) || exit 2
export NUMBA_CACHE_DIR=$T/numba VF_SCRATCH=$T TMPDIR=$T
mkdir -p "$T/numba"
/opt/venv/bin/python -W ignore -m vf.run "$@"
rc=$?
rm -rf "$T"
exit $rc
