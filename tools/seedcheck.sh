#!/bin/bash
# seedcheck.sh DIR... : confirms planted changes in a scratch copy: applies, builds, stable tests pass, demo fails with it and passes without.
S=/tmp/seedrepo
DIRS=(); for d in "$@"; do DIRS+=("$(realpath -e "$d")") || exit 1; done
if [ ! -d $S ]; then cp -a /repo $S; fi
cd $S && git fetch -q /repo HEAD && git checkout -qf --detach FETCH_HEAD && git clean -fdq -e _build
sed "s#/repo#$S#g; s#/opt/vp/build.sh#/tmp/seed_build.sh#g" /opt/vp/build.sh > /tmp/seed_build.sh
sed "s#/repo#$S#g; s#/opt/vp/build.sh#/tmp/seed_build.sh#g" /opt/vp/test.sh > /tmp/seed_test.sh
bash /tmp/seed_build.sh > /tmp/seed_build.log 2>&1 || { echo "base build failed"; exit 1; }
for d in "${DIRS[@]}"; do
  [ -f "$d/patch.diff" ] || { echo "no patch in $d"; continue; }
  n=$(basename $d)
  T=$(mktemp -d); cp $d/* $T/; /bin/rm -f $T/patch.diff $T/meta.json
  (cd $S && timeout 300 bash $T/demo.sh > /tmp/seed_demo.log 2>&1); a=$?
  if ! git -C $S apply --check $d/patch.diff; then echo "$n: DOES NOT APPLY"; continue; fi
  git -C $S apply $d/patch.diff
  if ! bash /tmp/seed_build.sh > /tmp/seed_build.log 2>&1; then echo "$n: BUILD FAILS"; tail -5 /tmp/seed_build.log; git -C $S checkout -q -- .; continue; fi
  bash /tmp/seed_test.sh /tmp/seed_out.json > /tmp/seed_test.log 2>&1
  t=$(python3 -c "
import json
o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=sorted(set(b)-set(o['passed'])); print('tests ok' if not m else 'TESTS FAIL %d: %s' % (len(m), m[:3]))")
  (cd $S && timeout 300 bash $T/demo.sh > /tmp/seed_demo2.log 2>&1); b=$?
  git -C $S checkout -q -- .
  bash /tmp/seed_build.sh > /tmp/seed_build.log 2>&1
  echo "$n: demo base=$a patched=$b; $t  $([ $a = 0 ] && [ $b != 0 ] && [ "$t" = 'tests ok' ] && echo GOOD || echo BAD)"
  [ $a = 0 ] || tail -5 /tmp/seed_demo.log
  /bin/rm -rf "$T"
done
