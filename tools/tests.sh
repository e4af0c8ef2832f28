#!/bin/bash
# Runs the repository's stable tests and prints which of them do not pass.
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/t.json'))['passed'])
m=sorted(b-t); print("missing",len(m)); print("\n".join(m[:20]))
P
