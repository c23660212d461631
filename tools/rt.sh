#!/bin/bash
# build + stable tests of /repo; prints baseline tests that do not pass
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
/opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
B,O=passed(b),passed(o)
print('baseline',len(B),'passed',len(O),'missing',sorted(B-O)[:20])
P
