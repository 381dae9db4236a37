#!/bin/bash
# try_seeds.sh [ids...]: applies each planted change to a scratch copy of /repo and runs its property's check there.
R=/tmp/scr/repo2
mkdir -p /tmp/scr; [ -d $R ] || { mkdir -p $R; (cd /repo && git archive HEAD | tar x -C $R); (cd $R && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x); }
cd /verif
for i in ${@:-$(ls seeded)}; do
  git -C $R checkout -q -- . && git -C $R apply /verif/seeded/$i/patch.diff || { echo "$i APPLY-FAILED"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  o=$(ESV_REPO=$R timeout 900 python3 check.py $p 2>&1); rc=$?
  echo "$i $p rc=$rc $(echo "$o" | grep -E 'VIOLATION|held|ERROR' | tail -1) | $(echo "$o" | head -1 | cut -c1-150)"
done
git -C $R checkout -q -- .
