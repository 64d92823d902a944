"""setup_cmd: checks that the tools are there and rebuilds stale extensions"""
import sys
from . import build, logic, symnp, pyload  # noqa

d, log = build.ensure()
if d is None:
    print(log)
    sys.exit(1)
print("ready", d or "(extensions of /repo are current)")
