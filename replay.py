#!/usr/bin/env python3-vt
"""replay.py <file>: runs the calls recorded in a replay file on /repo again."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lhv import real  # noqa: E402

p = json.load(open(sys.argv[1]))
print(p.get("what"))
r = p.get("replay") or {}
if "request" in r:
    print("request:", json.dumps(r["request"])[:2000])
    print("recorded reply:", json.dumps(r.get("reply"))[:1000])
    print("reply now:", json.dumps(real.run_calls([r["request"]])[0])[:1000])
else:
    print(json.dumps(p, indent=1)[:6000])
