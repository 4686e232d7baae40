#!/bin/bash
# seedtest.sh ID...: confirm each planted change: demo ok unpatched, builds, tests pass, demo fails, check catches it. Undoes everything.
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  if [ -z "$SKIPDEMO" ]; then bash $s/demo.sh >/tmp/w/demo.log 2>&1; d0=$?; else d0=-; fi
  git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPDEMO" ]; then
  bash /opt/vp/build.sh >/tmp/w/sb.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/w/st.json >/tmp/w/st.log 2>&1; f=$(python3 -c "
import json;o=set(json.load(open('/tmp/w/st.json'))['passed']);print(len([x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in o]))")
  bash $s/demo.sh >/tmp/w/demo1.log 2>&1; d1=$?; fi
  (cd /verif; python3-vt check.py $prop >/tmp/w/sc.log 2>&1); c=$?
  git checkout -q -- .
  v=MISSED; [ $c = 1 ] && grep -q "VIOLATION property=$prop" /tmp/w/sc.log && v=CAUGHT
  echo "$id $prop: demo_clean=$d0 build=$b failing_tests=$f demo_patched=$d1 check=$c $v  $(grep -m1 '^violated' /tmp/w/sc.log | cut -c1-120)"
done
