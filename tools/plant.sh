#!/bin/bash
# plant.sh ID [tier] : try the planted bug seeded/ID in private copies of
# /repo and /verif (a mount namespace of its own; nothing real is touched).
# Says whether it builds, passes the tests, is shown by its demonstration and
# caught by the check of its property.
id=$1; tier=${2:-quick}
V=/verif; S=$V/seeded/$id
[ -f $S/patch.diff ] || { echo "no $S/patch.diff"; exit 2; }
W=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo $W/repo; mkdir $W/verif
(cd $V && cp -a check.py lib harness KNOWN_FINDINGS.txt MANIFEST.json properties.jsonl $W/verif/)
[ -d $V/build ] && [ -n "$KEEPOBJ" ] && cp -a $V/build $W/verif/build
cp $S/patch.diff $W/patch.diff; cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
demo() { timeout 300 bash $W/demo/demo.sh > $W/demo.out 2>&1; }
if [ -z '$SKIPDEMO' ]; then demo; echo \"$id demo on clean tree: \$? (want 0)\"; fi
git apply $W/patch.diff || { echo '$id: patch does not apply'; exit 2; }
if [ -z '$SKIPDEMO' ]; then
bash /opt/vp/build.sh > $W/build.out 2>&1; echo \"$id build: \$? (want 0)\"
bash /opt/vp/test.sh $W/t.json > $W/test.out 2>&1; echo \"$id tests: \$(tail -1 $W/test.out)\"
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
def ok(x):
    x=x.get('stable') or x.get('passed') if isinstance(x,dict) else x
    if isinstance(x,dict): return {k for k,v in x.items() if v in ('pass','passed','PASS',True)}
    return set(x)
m=ok(b)-ok(t)
print('$id baseline tests lost:',len(m),sorted(m)[:3])
P
demo; echo \"$id demo with the bug: \$? (want nonzero)\"; tail -3 $W/demo.out
fi
[ -n '$SKIPCHECK' ] && exit 0
cd /verif; VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=$tier python3 check.py $prop $tier > $W/check.out 2>$W/check.err; rc=\$?
echo \"$id check $prop $tier: \$rc\"; grep -h VIOLATION $W/check.out; tail -1 $W/check.out
for f in \$(sed -n 's/.*replay=//p' $W/check.out); do head -1 \$f; done
if [ \$rc != 0 ] && [ \$rc != 1 ]; then tail -5 $W/check.err; fi
"
rm -rf "$W"
