#!/usr/bin/env python3
"""Run a reported counterexample against /repo's current sources: python3 replay.py <file>"""
import json
import os
import sys
import tempfile

import check

with open(sys.argv[1]) as fh:
    d = json.load(fh)
with tempfile.TemporaryDirectory() as t:
    exe = os.path.join(t, "vnative")
    check.build_native(d["features"], exe)
    o, tried = check.reproduce(exe, d)
print(d["harness"], d["inputs"], "->", o or tried)
sys.exit(1 if o else 0)
