#!/bin/bash
# tools/trybug.sh ID [CHECK...]: confirm the planted bug seeded/ID in scratch copies of /repo and
# /opt/vp (bound over the real ones in a private mount namespace), then run CHECKs against it.
# TESTS=0 skips the repository's tests; DEMO=0 the demonstration.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/sd/$ID
rm -rf "$S"; mkdir -p "$S"
cp -a /repo "$S/repo"; git -C "$S/repo" checkout -q -- . 
mkdir "$S/vp"; cp -a /opt/vp/. "$S/vp/"; rm -rf "$S/vp/reports"
mkdir "$S/demo"; cp "$V/seeded/$ID"/* "$S/demo/"; rm -f "$S/demo/"*.diff "$S/demo/meta.json"
cat > "$S/in.sh" <<X
mount --bind $S/repo /repo; mount --bind $S/vp /opt/vp
cd /repo
if [ "${DEMO:-1}" = 1 ]; then
  bash /opt/vp/build.sh > $S/build0.log 2>&1 || echo "$ID BASE BUILD FAILS"
  ( cd /repo; timeout 300 bash $S/demo/demo.sh > $S/demo0.log 2>&1 ); echo "$ID demo unpatched rc=\$? (want 0)"
fi
git apply $V/seeded/$ID/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
git diff --stat | tail -1
if [ "${TESTS:-1}" = 1 ]; then
  bash /opt/vp/test.sh $S/out.json > $S/test.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
print('$ID', 'missing', [t for t in b['stable'] if t not in o['passed']] if 'stable' in b else (list(b), list(o)))
P
else
  bash /opt/vp/build.sh > $S/build1.log 2>&1 || echo "$ID BUILD FAILS"
fi
if [ "${DEMO:-1}" = 1 ]; then
  ( cd /repo; timeout 300 bash $S/demo/demo.sh > $S/demo1.log 2>&1 ); echo "$ID demo patched rc=\$? (want nonzero)"; tail -3 $S/demo1.log
fi
X
unshare -Urm bash "$S/in.sh"
for c in "$@"; do
  ( cd $V; t0=$(date +%s); R4PY_REPO=$S/repo R4PY_BUILD=$S/bld VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${TIER:-quick} ./check $c > $S/$c.log 2>&1; rc=$?; echo "$ID $c rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION $S/$c.log)" )
done
[ "${KEEP:-0}" = 1 ] || rm -rf "/tmp/sd/${ID:?}"
