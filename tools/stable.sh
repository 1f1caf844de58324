#!/bin/bash
# rebuild /repo and compare its tests with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 -c "
import json;d=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(d['passed']);print('missing',sorted(m));exit(bool(m))"
