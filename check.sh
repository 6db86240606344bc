#!/bin/bash
# check.sh <ID> quick|thorough [options]   -- runs one property check against /repo's working tree
HERE=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH="$HERE:/repo:$HERE/.deps"
export VERIF_SEED=${VERIF_SEED:-1}
[ -d "$HERE/.deps/hypothesis" ] || bash "$HERE/setup.sh" >&2 || exit 2
W=$(mktemp -d "${TMPDIR:-/tmp}/kdcheck.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/tmp" "$W/numba" && cd "$W" || exit 2
export TMPDIR="$W/tmp" NUMBA_CACHE_DIR="$W/numba"
/opt/venv/bin/python -W ignore -m vlib.run "$@" 2>"$W/stderr.txt"
rc=$?
if [ $rc -ne 0 ]; then tail -n 25 "$W/stderr.txt" >&2; fi
exit $rc
