#!/bin/bash
# developer helper: rebuild /repo, run its tests, compare with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(d['passed']);s=set(b['stable'])
print('passed',len(p),'missing',sorted(s-p)[:10])
P
