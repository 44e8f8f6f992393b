#!/bin/bash
# trybug.sh SEEDID [CHECK...]: apply a planted bug to /repo, build, test, run its demo and checks, undo.
S=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
D=$(mktemp -d); cp -r $S/* $D/; rm -f $D/*.diff $D/meta.json
if [ -z "$NOBASE" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash $D/demo.sh >$D/o1 2>&1; echo "demo clean rc=$?"; fi
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/trybug.build 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/trybug.json 2>&1 | tail -1
python3 - <<'Y'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/trybug.json'))
def names(x): 
    return set(x if isinstance(x,list) else x.get('passed') or x.get('stable') or [])
p=names(b)-names(t); print("baseline tests lost:",len(p),sorted(p)[:3])
Y
bash $D/demo.sh >$D/o2 2>&1; echo "demo patched rc=$?"; tail -3 $D/o2
for c in ${*:-$P}; do (cd /verif; timeout 900 python3 checks/$c/check.py quick 2>&1 | cut -c1-400 | tail -${TAILN:-8}; echo "check $c rc=${PIPESTATUS[0]}"); done
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf "$D"
