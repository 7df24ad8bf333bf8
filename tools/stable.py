"""usage: stable.py OUT.json - lists stable tests that did not pass"""
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
m=sorted(b-set(o['passed'])); print("missing", m); sys.exit(bool(m))
