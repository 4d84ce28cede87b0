#!/usr/bin/env python3
"""setup_cmd: compiles the BigNat override (the checks fall back to the pure
definitions without it) and parses every specification."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core  # noqa: E402

cls = core.java_override()
print("override:", cls or "unavailable, using the pure definitions")
bad = 0
for f in sorted(os.listdir(core.SPEC)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", core.TLAJAR, "tla2sany.SANY", f], cwd=core.SPEC,
                           capture_output=True, text=True)
        ok = r.returncode == 0 and "*** Errors" not in r.stdout
        print(f, "ok" if ok else r.stdout[-2000:])
        bad += not ok
sys.exit(1 if bad else 0)
