"""Re-run the failing inputs recorded in a replay file on the current tree."""
import json
import os
import subprocess
import sys
import tempfile

from . import build
from .run import HERE, VENV

prop, path = sys.argv[1:3]
r = json.load(open(path))
bd, log = build.ensure()
bad = 0
for f in r.get("failures", []):
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "o.json")
        subprocess.run([VENV, os.path.join(HERE, "oracle", "main.py"), prop, "quick", str(f["seed"]), out, f["group"],
                        str(f["case"])], env=build.env(bd), cwd=d)
        bad += len(json.load(open(out))["failures"])
for f in r.get("failed_obligations", []):
    print("obligation:", f["harness"], "|", f["obligation"], "|", f["status"])
print("reproduced" if bad else "not reproduced", bad)
sys.exit(1 if bad else 0)
