#!/bin/bash
# usage: run.sh Cxx [--replay FILE] ; tier from VERIF_TIER (quick|thorough)
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_HOME="$here"
export TARGET_REPO="${TARGET_REPO:-/repo}"
scratch="$(mktemp -d /tmp/mcheck.XXXXXXXX)"
trap 'rm -rf "$scratch"' EXIT
if [ ! -s "$here/build/shim.so" ] || [ "$here/shim/shim.c" -nt "$here/build/shim.so" ]; then
  mkdir -p "$here/build" && gcc -O1 -shared -fPIC -o "$here/build/shim.$$.so" "$here/shim/shim.c" -ldl && mv "$here/build/shim.$$.so" "$here/build/shim.so" || exit 2
fi
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export MCHECK_SCRATCH="$scratch" PYTHONPATH="$TARGET_REPO:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc"
export PYTHONHASHSEED=0 TZ=VRF+10:30 LD_PRELOAD="$here/build/shim.so" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 ARROW_NUM_THREADS=1 MALLOC_ARENA_MAX=2
cd "$scratch" || exit 2
"$py" -W ignore "$here/mcheck/run.py" "$@"
