"""many.py SHARE ID... : several checks one after another in one process, each at a share of its usual number of cases; stops at the first that fails."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env, harness  # noqa: E402

env.setup()
for name in sys.argv[2:]:
    count = max(20, int(importlib.import_module("checks." + name).QUICK*float(sys.argv[1])))
    rc = harness.main([name, "--shards", "1", "--count", str(count)])
    if rc:
        print("STOPPED", name, rc)
        sys.exit(1)
