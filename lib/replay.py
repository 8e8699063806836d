#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness and re-executes one recorded violation."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import wodbuild as wb  # noqa: E402
from checks import CHECKS  # noqa: E402

path = sys.argv[1]
kv = dict(l.rstrip("\n").split("=", 1) for l in open(path) if "=" in l and not l.startswith(" "))
kind, name = kv["part"].split()
opts = next((p[2] for c in CHECKS.values() for p in c["parts"] if p[1] == name and len(p) > 2), {})
if kind == "cc":
    exe = wb.build_cc(name, **opts)
    sys.exit(subprocess.run([exe, "--replay=" + path], env=dict(os.environ, GLOG_logtostderr="1")).returncode)
sys.exit(subprocess.run([wb.PY, "%s/py/%s.py" % (wb.VERIF, name), "--replay=" + path], env=wb.py_env(opts)).returncode)
