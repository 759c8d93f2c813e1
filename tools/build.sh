#!/bin/bash
# build.sh <io|sched> <builddir> [repo]
set -e
V=$(cd "$(dirname "$0")/.." && pwd); F=$1; B=$2; R=${3:-/repo}
export CC=/usr/bin/gcc CXX=/usr/bin/g++
if [ "$F" = io ]; then S=$(cd $V/sim; ls scen_*.cpp | grep -v '^scen_thr_' | tr '\n' ';'); else S=$(cd $V/sim; ls scen_thr_*.cpp | tr '\n' ';'); fi
[ -f $B/build.ninja ] || cmake -S $V/sim -B $B -G Ninja -DREPO=$R -DFLAVOUR=$F "-DSCENARIOS=$S" >$B.cmake.log 2>&1 || { cat $B.cmake.log >&2; exit 3; }
ninja -C $B sim >$B.ninja.log 2>&1 || { tail -60 $B.ninja.log >&2; exit 3; }
