#!/bin/bash
# trybug.sh ID...: applies each planted bug to /repo, builds, runs the tests, the demo and its
# property's check (or those named in CHECKS), and undoes it.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply --check $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  [ -n "$NODEMO" ] || { bash /opt/vp/build.sh >/tmp/tb.build 2>&1; bash $d/demo.sh >/tmp/tb.demo0 2>&1; clean=$?; }
  git apply $d/patch.diff
  if [ -z "$NODEMO" ]; then
    bash /opt/vp/build.sh >/tmp/tb.build 2>&1 || echo "$id: BUILD FAILED"
    bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.test 2>&1
    tests=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
want=b.get('stable') or b.get('passed') or b.get('tests') or b
p=set(r.get('passed', []))
print('%d/%d' % (sum(1 for w in want if w in p), len(want)))
P
)
    timeout 300 bash $d/demo.sh >/tmp/tb.demo1 2>&1; bad=$?
  fi
  out=""
  for c in ${CHECKS:-$p}; do
    (cd /verif && VERIF_TIER=quick timeout 900 python3 check.py $c >/tmp/tb.check 2>/tmp/tb.err); rc=$?
    out="$out $c=$rc"
    grep -h '^#' /tmp/tb.check | head -1 | cut -c1-200
  done
  git checkout -q -- .
  echo "$id: demo clean=$clean patched=$bad tests=$tests checks:$out"
done
bash /opt/vp/build.sh >/dev/null 2>&1
git -C /repo status --short
