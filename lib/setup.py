#!/usr/bin/env python3
"""setup_cmd: nothing needs to be installed; checks the tools and warms the build cache when it can."""
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import wodbuild as wb
for t in ("g++", "ninja", "protoc"):
    if not shutil.which(t):
        print("missing tool", t)
        sys.exit(1)
from checks import CHECKS
done = set()
for spec in CHECKS.values():
    for part in spec["parts"]:
        if part[0] == "cc" and part[1] not in done:
            done.add(part[1])
            try:
                wb.build_cc(part[1], **(part[2] if len(part) > 2 else {}))
            except RuntimeError as e:
                print("note:", e)
print("setup done:", len(done), "harnesses")
