#!/bin/bash
# Brings the private build (in /verif/.work) up to date with /repo's current working tree.
# /repo itself is only read.  What decides staleness is file content (rsync -c), not mtime.
# usage: build.sh [release|asan]
set -u
VERIF=$(cd "$(dirname "$0")/.." && pwd)
MODE=${1:-release}
REPO=${VERIF_REPO:-/repo}
W=${VERIF_WORK:-$VERIF/.work}/$MODE
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=gcc CXX=g++ PYTHONDONTWRITEBYTECODE=1
export CCACHE_DIR=${VERIF_WORK:-$VERIF/.work}/ccache CCACHE_MAXSIZE=3G CCACHE_NOHASHDIR=1
unset LD_LIBRARY_PATH
mkdir -p "$W/src" || exit 2
exec 9>"$W/lock"; flock 9
LOG=$W/build.log
(
  rsync -rlc --delete --exclude=/build --exclude=/.git --exclude='*.pyc' --exclude=__pycache__ "$REPO"/ "$W/src"/ || exit 2
  B=$W/src/build/release
  FL="-include $VERIF/cmake/compat.h -DIMPLICIT_CTDS_32BIT"
  LK=""
  if [ "$MODE" = asan ]; then
    FL="$FL -fsanitize=address -fno-omit-frame-pointer -g1"
    LK="-fsanitize=address"
  fi
  LAUNCH=""
  command -v ccache >/dev/null && LAUNCH="-DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_C_COMPILER_LAUNCHER=ccache"
  if [ ! -f "$B/build.ninja" ]; then
    cmake -S "$W/src" -B "$B" -G Ninja -DCMAKE_BUILD_TYPE=Release \
      -DPYTHON_EXECUTABLE=/usr/bin/python3 \
      -DCMAKE_CXX_FLAGS="$FL" -DCMAKE_SHARED_LINKER_FLAGS="$LK" -DCMAKE_EXE_LINKER_FLAGS="$LK" $LAUNCH \
      -DCMAKE_PROJECT_meqtrees_INCLUDE=$VERIF/cmake/hook.cmake \
      -DCASACORE_LIBRARY_casa_components= -DCASACORE_LIBRARY_casa_calibration= \
      -DCASACORE_LIBRARY_casa_msvis= -DCASACORE_LIBRARY_casa_synthesis= \
      -Wno-dev || { rm -f "$B/build.ninja"; exit 2; }
  fi
  ninja -C "$B" -j8 || exit 2
) >"$LOG" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  echo "build of /repo's working tree failed; last lines of $LOG:" >&2
  tail -30 "$LOG" >&2
  exit 2
fi
exit 0
