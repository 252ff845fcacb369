#!/bin/bash
# seedtest.sh ID [CHECK...]: confirm seeded/ID in a scratch copy of /repo that is
# mounted over /repo in a private mount namespace, then run the checks against it
# (default: the check of the property it breaks). Needs the right to mount.
set -u
ID=$1; shift
V=/verif; S=/tmp/sc; P=$V/seeded/$ID
if [ -z "${IN_NS:-}" ]; then
  [ -d $S ] || cp -a /repo $S
  git -C $S checkout -q -- .; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
  exec env IN_NS=1 unshare -m bash "$0" "$ID" "$@"
fi
mount --bind $S /repo || exit 9
cd /repo
git checkout -q -- . ; git status --short | grep -v '^??' 
bash /opt/vp/build.sh >/tmp/sc.base.log 2>&1 || { echo "base build failed"; exit 9; }
run_demo() { local d=$(mktemp -d /tmp/sd.XXXX); cp -r $P/. $d/; rm -f $d/*.diff $d/meta.json; (cd /repo && timeout 300 bash $d/demo.sh >/tmp/sc.demo.log 2>&1); local r=$?; rm -rf "$d"; return $r; }
run_demo; r=$?; [ $r = 0 ] && echo "demo base: ok" || { echo "demo base: FAILS ($r)"; tail -20 /tmp/sc.demo.log; }
git apply --check $P/patch.diff || { echo "patch does not apply"; exit 9; }
git apply $P/patch.diff
if bash /opt/vp/build.sh >/tmp/sc.build.log 2>&1; then
  bash /opt/vp/test.sh /tmp/sc.json >/dev/null 2>&1
  python3 - <<'X'
import json
b=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed'))
o=set(json.load(open('/tmp/sc.json'))['passed'])
print('tests: '+('ok' if not b-o else 'BROKEN '+str(sorted(b-o)[:5])))
X
  run_demo; r=$?; [ $r != 0 ] && echo "demo patched: fails as it should ($r): $(grep -E 'FAIL|wrong|error' /tmp/sc.demo.log | head -2)" || echo "demo patched: PASSES (bad)"
  if [ "${1:-}" != none ]; then
  C=$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")
  for c in ${@:-$C}; do
    VERIF_CCACHE=1 VERIF_BUILD=/tmp/scb timeout 1000 bash $V/run.sh $c quick --no-evidence >/tmp/sc.check.log 2>&1; r=$?
    echo "check $c: exit $r $(grep -a VIOLATION /tmp/sc.check.log | head -1)"
  done
  fi
else echo "PATCHED BUILD FAILS"; tail -20 /tmp/sc.build.log; fi
git checkout -q -- .
