#!/bin/bash
# plant.sh ID [check...]: try planted bug seeded/ID in scratch copies of /repo
# and /verif, bind-mounted over the real ones in a private mount namespace.
# Prints: demo on clean, tests with the bug, demo with the bug, the checks.
id=$1; shift
S=/tmp/plant_$id
rm -rf "$S"; mkdir -p "$S"
cp -a /repo "$S/repo"
mkdir "$S/verif"; tar -C /verif --exclude=./build --exclude=./.git --exclude=./seeded --exclude=./replay -cf - . | tar -C "$S/verif" -xf -
cp -a /verif/seeded/$id "$S/demo"
mkdir "$S/tmp"
checks="$*"
[ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
CHECKS="$checks" S="$S" ID="$id" unshare -m bash -c '
mount --bind "$S/repo" /repo; mount --bind "$S/verif" /verif
cd /repo
git checkout -q -- . 
[ -z "$SKIP_CLEAN" ] && { bash /opt/vp/build.sh >"$S/build0.log" 2>&1; sh -c "bash $S/demo/demo.sh" >"$S/demo0.log" 2>&1; echo "$ID clean demo: $?"; }
git apply "$S/demo/patch.diff" || { echo "$ID patch does not apply"; exit 1; }
bash /opt/vp/build.sh >"$S/build1.log" 2>&1 || { echo "$ID BUILD FAILED"; tail -20 "$S/build1.log"; exit 1; }
[ -z "$SKIP_TESTS" ] && { bash /opt/vp/test.sh "$S/out.json" >"$S/test.log" 2>&1
python3 - "$S/out.json" <<PY
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=json.load(open(sys.argv[1]))
bad=b-set(o["passed"])
print("'$id' tests:", "all stable pass" if not bad else "FAIL %s" % sorted(bad)[:6])
PY
}
bash $S/demo/demo.sh >"$S/demo1.log" 2>&1; echo "$ID patched demo: $? ($(tail -1 $S/demo1.log | cut -c1-100))"
cd /verif
for c in $CHECKS; do timeout 900 python3 check.py $c quick >"$S/check.$c.log" 2>&1; echo "$ID check $c: $? $(grep -m1 -A1 VIOLATION "$S/check.$c.log" | tr "\n" " " | cut -c1-200)"; done
'
[ -z "$KEEP" ] && rm -rf "/tmp/plant_$id"
exit 0
