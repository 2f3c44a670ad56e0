#!/bin/bash
# seedtest.sh <id>...: demo on the clean tree, then with the patch: build, tests, demo, the property's quick check; undone afterwards.
R=${SEED_REPO:-/repo}; VP=${SEED_VP:-/opt/vp}; cd $R
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
  bash $VP/build.sh >/tmp/seed.log 2>&1; bash $d/demo.sh >/tmp/demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $VP/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; rb=$?
  t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/seed.json'))['passed']);print(sorted(b-p) or 'ok')")
  bash $d/demo.sh >/tmp/demo1.log 2>&1; r1=$?
  if [ -z "$NOCHECK" ]; then (cd /verif && VERIF_REPO=$R bin/check $prop quick) >/tmp/check.log 2>/tmp/check.err; rc=$?; else rc=-; fi
  git checkout -- .
  echo "$id prop=$prop demo clean=$r0 patched=$r1 tests=$t(rc $rb) check=$rc $(grep -c ^VIOLATION /tmp/check.log)"
done
bash $VP/build.sh >/tmp/seed.log 2>&1
