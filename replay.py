#!/usr/bin/env python3
"""replay.py <evidence/replay/...json>: run a reported counterexample on the real code in /repo."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from symx import driver  # noqa: E402

d = json.load(open(sys.argv[1]))
r = driver.run_concrete([d["job"]])[0]
print("property", d["property"], "task", d["task"])
print("inputs  ", json.dumps(d["job"]["inputs"]))
print("claims violated on the real code:", r["failures"], r.get("exc") or "")
if r.get("tb"):
    print(r["tb"])
sys.exit(1 if r["failures"] else 0)
