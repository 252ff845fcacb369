#!/bin/bash
# build.sh TARGET...: build harness targets against $VERIF_REPO (default /repo)
set -u -o pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$HERE/build/asan}
mkdir -p "$B"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
LOG=$B/build-$$.log
L=""
command -v ccache >/dev/null && [ -n "${VERIF_CCACHE:-}" ] && L="-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"
{
  cmake -S "$HERE/harness" -B "$B" -G Ninja -DREPO="$REPO" -DCMAKE_CXX_COMPILER=/usr/bin/clang++ $L &&
  ninja -C "$B" "$@"
} >"$LOG" 2>&1
rc=$?
if [ $rc -ne 0 ]; then grep -E "error|FAILED|undefined" "$LOG" | head -40 >&2; tail -5 "$LOG" >&2; fi
rm -f "$LOG"
exit $rc
