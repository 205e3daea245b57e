#!/usr/bin/env python3
"""setup_cmd: nothing is compiled; checks that the interpreter and the code are there."""
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run  # noqa: E402

os.makedirs(os.path.join(run.HERE, "evidence"), exist_ok=True)
with tempfile.TemporaryDirectory(prefix="verif-setup-", dir="/tmp") as d:
    for x in ("tmp", "config"):
        os.makedirs(os.path.join(d, x))
    p = subprocess.run(
        [run.PYTHON, "-c", "import guard; guard.assert_repo(); import mir, eccodes, earthkit.data, xarray, dask; print('ok')"],
        env=run.child_env(d, "quick", 1),
        cwd=d,
    )
sys.exit(p.returncode)
