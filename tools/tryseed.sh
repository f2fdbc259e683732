#!/bin/bash
# tryseed.sh ID...: build, demo and tests with each planted bug in a scratch copy of /repo bind-mounted nowhere: the
# build scripts name /repo, so this applies the change to /repo itself and undoes it; then runs the property's check.
# Never run it while vcheck is working.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: clean build failed"
  bash $d/demo.sh >/tmp/demo0.log 2>&1; r0=$?
  git -C /repo apply $d/patch.diff || continue
  s0=$(date +%s)
  if bash /opt/vp/build.sh >/tmp/build.log 2>&1; then
    bash $d/demo.sh >/tmp/demo1.log 2>&1; r1=$?
    t=$(/verif/tools/stable.sh 2>&1 | tail -1)
  else r1=nobuild; t=nobuild; fi
  s1=$(date +%s)
  (cd /verif && timeout 900 python3 check.py $p --tier quick --seed 1 >/tmp/chk.log 2>&1); rc=$?
  s2=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id [$p]: demo clean=$r0 patched=$r1; tests: $t; check rc=$rc ($((s2-s1)) s) $(grep -m1 -o 'VIOLATION.*' /tmp/chk.log | cut -c1-150)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
