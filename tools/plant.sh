#!/bin/bash
# tools/plant.sh ID [test] : confirm planted change ID in a scratch copy (bind-mounted over /repo in a
# private mount namespace): demo on the clean tree, demo with the patch, the property's quick check with the
# patch, and (with "test") the stable tests with the patch.
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant.$ID
rm -rf "$W"; mkdir -p "$W/v"; cp -a /repo "$W/repo"
for x in check.sh setup.sh checks vlib tools known_findings.json properties.jsonl MANIFEST.json; do cp -a /verif/$x "$W/v/"; done
mkdir -p "$W/v/evidence" "$W/v/replays" "$W/v/seeded"; cp -a "$S" "$W/demo"
find "$W/repo" -name __pycache__ -not -path '*/.git/*' -prune -exec rm -rf {} +
git -C "$W/repo" apply "$S/patch.diff" || exit 2
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /repo && timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1); d0=$?
timeout 3000 unshare -rm bash -c "mount --bind $W/repo /repo; mount --bind $W/v /verif
cd /repo; timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo \$? >$W/d1
cd /verif; VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh $P quick >$W/check.log 2>&1; echo \$? >$W/c1
if [ '$2' = test ]; then bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; fi"
d1=$(cat "$W/d1"); c1=$(cat "$W/c1")
t=-
if [ "$2" = test ]; then t=$(python3 - "$W/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def ok(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    raise SystemExit(str(x.keys()))
m=ok(b)-ok(r); print('ok' if not m else 'LOST %d %s'%(len(m),sorted(m)[:3]))
P
); fi
echo "$ID prop=$P demo_clean=$d0 demo_patched=$d1 check=$c1 tests=$t $(grep -m1 VIOLATION "$W/check.log" | cut -c1-160)"
[ "$d0" = 0 ] || tail -5 "$W/demo0.log"
[ "$d1" != 0 ] || tail -5 "$W/demo1.log"
[ -n "$KEEP" ] || rm -rf "$W"
