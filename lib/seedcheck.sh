#!/bin/bash
# developer helper: seedcheck.sh ID...: in the scratch copy /tmp/sc/repo: demo passes, patch applies, builds,
# tests pass, demo fails, the property's check reports a violation
S=/tmp/sc; R=$S/repo
git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
for id in "$@"; do
  D=/verif/seeded/$id
  [ -n "$NOCLEAN" ] || { bash $S/build.sh >$S/log 2>&1 || { echo "$id: clean build failed"; continue; }
  (cd $R && bash $D/demo.sh >$S/demo.log 2>&1) || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -5 $S/demo.log; continue; }; }
  git -C $R apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash $S/test.sh $S/o.json >$S/log 2>&1 && [ "$(tail -1 $S/log)" = "713 passed, 0 failed" ]; then
    if (cd $R && timeout 300 bash $D/demo.sh >$S/demo.log 2>&1); then echo "$id: DEMO PASSES WITH THE PATCH"; fi
    if [ -z "$NOCHECK" ]; then
      p=${PROP:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
      t=$(date +%s); (cd /verif && TIRO_REPO=$R SYMX_CACHE=$S/cache timeout 900 python3 lib/check.py $p quick) >$S/check-$id.log 2>&1; rc=$?
      echo "$id: $p exit $rc $(($(date +%s)-t))s $(grep -m1 -a violation: $S/check-$id.log | cut -c1-200)"
      [ $rc = 1 ] || tail -3 $S/check-$id.log
    else echo "$id: valid"; fi
  else echo "$id: BUILD OR TESTS FAIL"; tail -5 $S/log; fi
  git -C $R checkout -q -- .
done
