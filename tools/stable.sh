#!/bin/bash
# Runs the repository's tests and lists stable ones that do not pass.
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/stable.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print('stable tests that fail:',bad)
P
