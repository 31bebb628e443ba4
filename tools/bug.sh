#!/bin/bash
# bug.sh ID [notest]: applies a planted bug to /repo, builds, runs the stable tests, the demonstration and the property's check, and undoes it
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != nobase ]; then bash /opt/vp/build.sh >/tmp/bug_build.log 2>&1; bash $D/demo.sh >/tmp/bug_demo0.log 2>&1; echo "demo unchanged: $? (want 0)"; fi
git apply $D/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/bug_build.log 2>&1 || { echo "does not build"; tail -5 /tmp/bug_build.log; exit 2; }
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/bug_t.json >/dev/null 2>&1; python3 -c "
import json; t=set(json.load(open('/tmp/bug_t.json'))['passed']); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); print('stable tests:', 'all pass' if b<=t else 'FAIL '+str(b-t))"; fi
bash $D/demo.sh >/tmp/bug_demo1.log 2>&1; echo "demo with bug: $? (want nonzero)"; tail -2 /tmp/bug_demo1.log
python3 /verif/run.py check $P >/tmp/bug_check.log 2>&1; echo "check $P: $?"; grep -A1 "failing" /tmp/bug_check.log | cut -c1-300; grep VIOLATION /tmp/bug_check.log | head -3
