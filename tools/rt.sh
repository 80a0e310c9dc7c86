#!/bin/bash
# rebuild /repo and run its tests; prints missing stable tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 -c "
import json;d=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
l=b if isinstance(b,list) else list(b.values())[0]
print('passed',len(d['passed']),'missing',set(l)-set(d['passed']))"
