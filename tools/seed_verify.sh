#!/bin/bash
# seed_verify.sh ID [check|nobuild]: in a private copy of /repo: the patch builds, passes the tests,
# and is told apart by its demonstration; then runs the check of its property against it
ID=$1; MODE=${2:-all}
V=$(cd "$(dirname "$0")/.." && pwd)
export S=${SEEDCOPY:-/tmp/seedrepo} V ID MODE
if [ ! -d $S ]; then cp -a /repo $S; fi
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
exec unshare -m bash -c '
mount --bind $S /repo || exit 9
cd /repo
P=$(python3 -c "import json;print(json.load(open(\"$V/seeded/$ID/meta.json\"))[\"property\"])")
T=$(mktemp -d /tmp/seedv.XXXXXX); trap "rm -rf $T" EXIT
cp -r $V/seeded/$ID $T/d; rm -f $T/d/patch.diff $T/d/meta.json
res="$ID [$P]:"
if [ $MODE = all ]; then
  bash /opt/vp/build.sh > $T/b0 2>&1 || { echo "$res BASE BUILD FAILED"; tail -5 $T/b0; exit 1; }
  (cd /repo; timeout 300 bash $T/d/demo.sh) > $T/o0 2>&1; r0=$?
  [ $r0 = 0 ] && res="$res demo-base=ok" || { res="$res demo-base=BAD($r0)"; cat $T/o0 | tail -20; }
fi
git apply $V/seeded/$ID/patch.diff || { echo "$res PATCH DOES NOT APPLY"; exit 1; }
if [ $MODE = all ]; then
  bash /opt/vp/build.sh > $T/b1 2>&1 || { echo "$res PATCHED BUILD FAILED"; grep -m5 error $T/b1; git checkout -q -- .; exit 1; }
  bash /opt/vp/test.sh $T/out.json > $T/t1 2>&1
  res="$res tests=$(python3 -c "
import json
o=json.load(open(\"$T/out.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))
s=b.get(\"stable\") or b.get(\"passed\") or b.get(\"tests\")
m=[t for t in s if t not in o[\"passed\"]]
print(\"ok\" if not m else \"FAIL \"+str(m[:3]))")"
  (cd /repo; timeout 300 bash $T/d/demo.sh) > $T/o1 2>&1; r1=$?
  [ $r1 != 0 ] && [ $r1 != 3 ] && res="$res demo-patched=fails($r1)" || { res="$res demo-patched=NOTTOLD($r1)"; tail -20 $T/o1; }
fi
s=$(date +%s)
SIM_BUILD=${SEEDBUILD:-/tmp/seedbuild} python3 $V/check.py $P quick > $T/c 2>&1; rc=$?
e=$(date +%s)
if [ $rc = 1 ] && grep -q "^VIOLATION property=$P " $T/c; then res="$res check=CAUGHT $((e-s))s: $(grep -v "^\[\|^VIOL\|^KNOWN" $T/c | head -3 | tr "\n" " " | cut -c1-160)"; else res="$res check=MISSED($rc) $((e-s))s"; tail -5 $T/c; fi
git checkout -q -- .
echo "$res"
'
