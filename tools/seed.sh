#!/bin/bash
# seed.sh ID [notest]: confirms a planted bug in a scratch copy (demo passes without, fails with; stable tests pass with)
S=/verif/seeded/$1
D=$(mktemp -d /tmp/seed_XXXX); cp -a /repo "$D/repo" || exit 9
( cd "$D/repo" && git checkout -q -- . && git apply "$S/patch.diff" ) || { rm -rf "$D"; echo "patch does not apply"; exit 9; }
cat > "$D/in.sh" <<X
mount --bind "$D/repo" /repo || exit 9
cd /repo
bash /opt/vp/build.sh > "$D/build.log" 2>&1 || { echo "BUILD FAILED"; tail -5 "$D/build.log"; exit 8; }
mkdir $D/demo; cp -r $S/* $D/demo/; rm -f $D/demo/*.diff $D/demo/meta.json
timeout 300 bash $D/demo/demo.sh > "$D/demo.log" 2>&1; echo "demo with patch: rc=\$?"; tail -3 "$D/demo.log" | cut -c1-300
if [ "$2" != notest ]; then
 bash /opt/vp/test.sh "$D/out.json" > "$D/test.log" 2>&1
 python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$D/out.json'))
def passed(x):
    return set(x.get('passed') or x.get('stable') or [])
bp=passed(b); op=passed(o)
print("baseline", len(bp), "now passing", len(op & bp), "MISSING", sorted(bp-op)[:8])
Y
fi
git apply -R "$S/patch.diff"; bash /opt/vp/build.sh > /dev/null 2>&1
timeout 300 bash $D/demo/demo.sh > "$D/demo2.log" 2>&1; echo "demo without patch: rc=\$?"; tail -3 "$D/demo2.log" | cut -c1-300
X
unshare -m bash "$D/in.sh"; rm -rf "$D"
