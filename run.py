#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--show]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or sys.executable != "/opt/venv/bin/python":
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    if os.environ.get("VERIF_REEXEC") != "1":
        e["VERIF_REEXEC"] = "1"
        os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.join(HERE, "run.py")] + sys.argv[1:], e)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vlib.harness import main  # noqa: E402

sys.exit(main())
