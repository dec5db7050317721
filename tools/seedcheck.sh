#!/bin/bash
# seedcheck.sh ID...: confirm planted bugs in a scratch copy of /repo: the patch applies and builds, the stable
# tests pass with it, the demo exits 0 without and nonzero with it.
W=/tmp/seedrepo
mk() { [ -d $W ] || cp -a /repo $W; for s in build test; do sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W/../seed_build.sh#" /opt/vp/$s.sh > /tmp/seed_$s.sh; done; }
mk
rc=0
for id in "$@"; do
  S=/verif/seeded/$id
  git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
  bash /tmp/seed_build.sh > /tmp/seed_build.log 2>&1 || { echo "$id: clean build failed"; exit 2; }
  D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
  (cd $W && timeout 300 bash $D/demo.sh > /tmp/seed_demo0.log 2>&1); c=$?
  git -C $W apply $S/patch.diff || { echo "$id: patch does not apply"; rc=1; continue; }
  bash /tmp/seed_build.sh > /tmp/seed_build.log 2>&1 || { echo "$id: build failed"; tail -5 /tmp/seed_build.log; rc=1; continue; }
  (cd $W && timeout 300 bash $D/demo.sh > /tmp/seed_demo1.log 2>&1); p=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /tmp/seed_test.sh /tmp/seed_out.json > /tmp/seed_test.log 2>&1
    t=$(python3 - <<'P'
import json
o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])), sorted(set(b['stable'])-set(o['passed']))[:4])
P
)
  fi
  echo "$id: demo clean=$c patched=$p; stable tests failing: $t"
  git -C $W checkout -q -- .
  rm -rf "$D"
done
exit $rc
