#!/bin/bash
# seed_demo.sh ID...: only the demonstrations, without and with the change, in private copies of the sources
V=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
  T=$(mktemp -d /tmp/seedd.XXXXXX)
  git clone -q /repo $T/r; mkdir -p $T/r/_build; cp -r /repo/_build/include $T/r/_build/ 2>/dev/null
  cp -r $V/seeded/$ID $T/d; rm -f $T/d/patch.diff $T/d/meta.json
  (cd $T/r; REPO=$T/r timeout 300 bash $T/d/demo.sh > $T/o0 2>&1); r0=$?
  git -C $T/r apply $V/seeded/$ID/patch.diff || echo "$ID: does not apply"
  (cd $T/r; REPO=$T/r timeout 300 bash $T/d/demo.sh > $T/o1 2>&1); r1=$?
  s=ok; [ $r0 = 0 ] && [ $r1 != 0 ] && [ $r1 != 3 ] || s=BAD
  echo "$ID: $s base=$r0 patched=$r1 $(tail -1 $T/o1 | cut -c1-100)"
  [ $s = ok ] || { tail -8 $T/o0; echo ---; tail -8 $T/o1; }
  rm -rf $T
done
