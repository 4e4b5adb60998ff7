#!/bin/bash
# trybug.sh ID...: build, tests, demo and check with and without each planted bug (in /repo, undone afterwards)
export TMPDIR=/tmp
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo
  bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/bug.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/bug.json >/tmp/bug.test 2>&1
  t=$(tail -1 /tmp/bug.test)
  bash $d/demo.sh >/tmp/demo1.log 2>&1; c=$?
  ( cd /verif; VERIF_SEED=1 VERIF_TIER=quick bash run.sh $p quick >/tmp/bug.check 2>/tmp/bug.err ); e=$?
  git checkout -q -- .
  echo "$id $p: demo clean=$a build=$b tests='$t' demo bug=$c check=$e $(grep -c VIOLATION /tmp/bug.check)"
  if [ $e != 1 ]; then tail -3 /tmp/bug.err; fi
done
bash /opt/vp/build.sh >/tmp/bug.build 2>&1
