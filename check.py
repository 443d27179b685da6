"""Entry point: /opt/venv/bin/python check.py <property> [--tier T] [--seed N] [--replay FILE]"""
import os
import sys

FIXED = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg",
}
if any(os.environ.get(k) != v for k, v in FIXED.items()):
    os.environ.update(FIXED)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vmon.core import run_check  # noqa: E402

sys.exit(run_check(sys.argv[1], sys.argv[2:]))
