#!/bin/bash
# suite.sh PATCH: apply to /repo, build, run the stable tests, undo
set -e
cd /repo
git apply "$1"
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/suite.log 2>&1 || { tail -20 /tmp/suite.log; exit 1; }
bash /opt/vp/test.sh /tmp/suite.json >/tmp/suite.log 2>&1 || true
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/suite.json'))
want=set(x if isinstance(x,str) else x.get('id') for x in (b.get('passed') or b.get('stable') or b.get('tests')))
miss=want-set(o['passed']);print(miss);exit(1 if miss else 0)"
