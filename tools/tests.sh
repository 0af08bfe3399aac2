#!/bin/bash
# run the repo's stable tests; list those of the baseline that no longer pass
bash /opt/vp/test.sh /tmp/out_tests.json 2>&1 | tail -1
/usr/bin/python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out_tests.json'))
m=sorted(set(b['stable'])-set(o['passed']));print(len(m),'stable tests missing',m[:10])
P
