#!/bin/bash
# seedtest.sh [-t] ID...: in scratch copy /tmp/seed/repo: demo passes without, fails with the patch; -t also runs the stable tests
S=${SCRATCH:-/tmp/seed/repo}
T=0; [ "$1" = -t ] && { T=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  cd $S || exit 1
  git checkout -q -- . ; git reset -q --hard
  bash $d/demo.sh > /tmp/seed/$id.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh > /tmp/seed/$id.bug 2>&1; b=$?
  t=-
  if [ $T = 1 ]; then
    sed "s|/repo|$S|g" /opt/vp/common.sh > /tmp/seed/common.sh
    sed "s|/opt/vp/common.sh|/tmp/seed/common.sh|; s|/repo/target|$S/target|g" /opt/vp/test.sh > /tmp/seed/test.sh
    bash /tmp/seed/test.sh /tmp/seed/$id.json > /tmp/seed/$id.test 2>&1
    t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed/$id.json'))
b=b['stable']
m=[x for x in b if x not in set(r['passed'])]
print(len(m), m[:3])
P
)
  fi
  git checkout -q -- .
  echo "$id: clean=$c bug=$b tests-missing=$t"
done
