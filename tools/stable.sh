#!/bin/bash
# runs the repository's tests and compares with the stable baseline
O=$(mktemp /tmp/stable.XXXX.json); bash /opt/vp/test.sh $O >/dev/null 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open(sys.argv[1]))['passed'];m=set(b)-set(o);print("stable",len(b),"missing",sorted(m));sys.exit(bool(m))
P
rc=$?; rm -f $O; exit $rc
