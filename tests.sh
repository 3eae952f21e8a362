#!/bin/bash
# rebuilds /repo and compares its test results with the baseline
bash /opt/vp/build.sh >/tmp/vb.log 2>&1 || { tail -20 /tmp/vb.log; exit 1; }
bash /opt/vp/test.sh /tmp/vt.json >/dev/null 2>&1
python3 - <<'P'
import json
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/vt.json'))
def passed(d):
    for k in ('passed','stable','tests'):
        if k in d:
            v=d[k]
            return set(v) if isinstance(v,list) else {x for x,y in v.items() if y in ('pass','passed',True)}
    raise SystemExit(str(list(d)))
m=passed(a)-passed(b); print('missing:',sorted(m) or 'none')
P
