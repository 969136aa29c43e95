#!/bin/bash
# confirm_bug.sh ID...: in the scratch copy /tmp/wt, confirm that each seeded bug builds, passes the stable tests,
# and that its demo separates the changed from the unchanged tree.
for s in env build test; do sed -e 's#/repo#/tmp/wt#g' -e 's#/opt/vp/env.sh#/tmp/vpwt/env.sh#' /opt/vp/$s.sh > /tmp/vpwt.$s; done
mkdir -p /tmp/vpwt; for s in env build test; do mv /tmp/vpwt.$s /tmp/vpwt/$s.sh; done
for id in "$@"; do
  d=/verif/seeded/$id
  cd /tmp/wt && git checkout -q -- . 
  rc0=skip; if [ ! -f /tmp/vpwt/ok.$id ] || [ $d/main.rs -nt /tmp/vpwt/ok.$id ]; then bash $d/demo.sh >/tmp/vpwt/$id.demo0 2>&1; rc0=$?; [ $rc0 = 0 ] && touch /tmp/vpwt/ok.$id; else rc0=0; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/vpwt/$id.demo1 2>&1; rc1=$?
  if [ "$rc0" = 0 ] && [ $rc1 != 0 ] && [ $rc1 != 9 ]; then
    bash /tmp/vpwt/build.sh >/tmp/vpwt/$id.build 2>&1; b=$?
    bash /tmp/vpwt/test.sh /tmp/vpwt/$id.json >/tmp/vpwt/$id.test 2>&1
    bad=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/vpwt/$id.json'));print([x for x in b['stable'] if x not in set(t['passed'])])")
  else b=-; bad=-; fi
  git checkout -q -- .
  echo "$id: demo unpatched=$rc0 patched=$rc1 build=$b failing=$bad"
done
