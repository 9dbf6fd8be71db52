#!/bin/bash
# development aid: build and run the stable tests of /repo, list regressions
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/test.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/test.json'))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k]) if isinstance(x[k],list) else {n for n,v in x[k].items() if v in('pass','passed',True)}
    return None
pb,pt=passed(b),passed(t)
print('baseline',len(pb),'now',len(pt),'missing',sorted(pb-pt))
P
