#!/bin/bash
# usage: run.sh ID [--thorough] [--replay FILE]: runs one check against the working tree of /repo
cd "$(dirname "$(realpath "$0")")" || exit 3
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/mpl" "$scratch/tmp"
cp -r /opt/vp/mplconfig/. "$scratch/mpl/" 2>/dev/null
export PYTHONPATH="${CC_REPO:-/repo}/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg \
  MPLCONFIGDIR="$scratch/mpl" TMPDIR="$scratch/tmp" JAX_PLATFORMS=cpu XDG_CACHE_HOME="$scratch/tmp" \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
/opt/venv/bin/python run.py "$@"
rc=$?
exit $rc
