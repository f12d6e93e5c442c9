#!/bin/bash
# usage: bash run.sh Cxx [quick|thorough]        run one check
#        bash run.sh replay FILE                 replay a recorded violation
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH="/repo:$HERE"
export TZ=UTC LC_ALL=C.UTF-8 LANG=C.UTF-8
SCRATCH=$(mktemp -d /tmp/metatab-mc.XXXXXXXX) || exit 2
export MC_SCRATCH="$SCRATCH" METATAB_CACHE="$SCRATCH/cache" METAPACK_CACHE="$SCRATCH/cache" HOME="$SCRATCH" TMPDIR="$SCRATCH"
mkdir -p "$SCRATCH/cache"
trap 'rm -rf "$SCRATCH"' EXIT
cd "$SCRATCH"
/opt/venv/bin/python -m mc "$@"
RC=$?
exit $RC
