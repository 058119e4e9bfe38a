#!/bin/bash
# Compiles demo.cc against the libraries built in /repo and runs it in a scratch folder.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
B=/repo/build/release
L="$B/MeqServer $B/MeqNodes $B/MEQ $B/VisCube $B/OCTOPython $B/OCTOPUSSY $B/DMI $B/TimBase $B/AppAgent/AppAgent $B/AppAgent/AppUtils $B/MeqMPI"
RP=""; for d in $L; do RP="$RP -L$d -Wl,-rpath,$d"; done
g++ -DHAVE_AIPSPP -DHAVE_QDBM -DMAKE_LOFAR_SYMBOLS_GLOBAL -DSTRIP_CUDA -DUSE_STD_COMPLEX -DUSE_THREADS -D_GNU_SOURCE \
  -I"$B/include" -I"$B/MEQ"  -I/usr/include/casacore -I/usr/lib/python3/dist-packages/numpy/core/include -I/usr/include/python3.12 \
  -include /opt/vp/cmake/compat.h -DIMPLICIT_CTDS_32BIT -O1 -DNDEBUG -fPIC -w -std=c++17 -fpermissive -fmax-errors=3 -I"$D" \
  -o "$S/demo" "$D/demo.cc" $RP -rdynamic -Wl,--allow-shlib-undefined -Wl,--no-as-needed -lmeqserver -lmeqmpi -lmeqnodes -lmeq -lviscube -lapputils -lappagent "$B/OCTOPython/octopython.so" -loctopussy -ldmi -ltimbase \
  -lcasa_images -lcasa_ms -lcasa_tables -lcasa_measures -lcasa_scimath -lcasa_scimath_f -lcasa_casa -lcfitsio -lwcs -llapack -lqdbm -lpython3.12 -lblitz -lpthread 2>"$S/err" || { head -5 "$S/err"; exit 2; }
cd "$S" || exit 2
PYTHONDONTWRITEBYTECODE=1 LD_LIBRARY_PATH=/repo/install/symlinked-release/lib PYTHONPATH=/opt/vp/pyshim:/repo/install/symlinked-release/libexec/python:/opt/vp/py timeout 120 ./demo
rc=$?
echo "demo exit code $rc"
[ $rc = 0 ]
