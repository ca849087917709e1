#!/bin/bash
# tools/trybug.sh ID [CHECK...]: what vcheck does with one planted bug: demo, build, stable tests, the property's check
set -u
id=$1; shift
b=/verif/seeded/$id
prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $b/meta.json)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
d=$(mktemp -d /tmp/demo.XXXXXX); cp $b/* $d/; rm -f $d/meta.json $d/patch.diff
chmod 755 $d
(cd /repo && timeout 300 bash $d/demo.sh >$d/log1 2>&1); r1=$?
git -C /repo apply $b/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh $d/t.json >/dev/null 2>&1
t=$(python3 -c 'import json; b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); g=set(json.load(open("'$d'/t.json"))["passed"]); print(sorted(b-g) or "tests-ok")')
(cd /repo && timeout 300 bash $d/demo.sh >$d/log2 2>&1); r2=$?
echo "$id [$prop]: demo clean $r1, with bug $r2, $t"
[ $r1 = 0 ] || tail -5 $d/log1
[ $r2 != 0 ] && tail -1 $d/log2
cd /verif
for c in ${@:-$prop}; do
  VERIF_SEED=${VERIF_SEED:-1} ./check $c >$d/c.log 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$c" $d/c.log)
  if [ $rc = 1 ] && [ $v -gt 0 ]; then echo "   $c CAUGHT: $(grep '^problem' $d/c.log | cut -c1-200)"; else echo "   $c MISSED rc=$rc $(tail -1 $d/c.log | cut -c1-300)"; fi
done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf "$d"
