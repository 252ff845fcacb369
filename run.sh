#!/bin/bash
# run.sh PROPERTY TIER [args]: build the check of PROPERTY from /repo's current
# tree and run it.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8
unset CC CXX CXXFLAGS CFLAGS LDFLAGS
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$HERE
ID=$1; shift
export VERIF_TIER=${1:-${VERIF_TIER:-quick}}; shift || true
export VERIF_SEED=${VERIF_SEED:-1}
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$HERE/build/asan}
export VERIF_REPO=$REPO VERIF_BUILD=$B
bash "$HERE/build.sh" chk_$ID || { echo "build of the check failed" >&2; exit 3; }
exec "$B/chk_$ID" "$@"
