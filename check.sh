#!/bin/bash
# check.sh ID [quick|thorough]: decide one property for /repo's current tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset DISPLAY
export PYTHONPATH="${VERIF_REPO:-/repo}:$here/lib:$here/harness"
export VERIF_SEED="${VERIF_SEED:-1}"
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}"
cd "$here" || exit 2
exec /opt/venv/bin/python "$here/lib/runner.py" "$1"
