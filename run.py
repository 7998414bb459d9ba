#!/opt/venv/bin/python
"""Entry point of every check:  run.py <property> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_ENV = {
    "HOME": os.environ.get("HOME", "/root"),
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "CUDA_VISIBLE_DEVICES": "",
}
if os.environ.get("_VERIF_REEXEC") != "1":
    os.environ.update(_ENV)
    os.environ["_VERIF_REEXEC"] = "1"
    os.execv(sys.executable, [sys.executable, *sys.argv])

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(HERE, "vendor"), os.path.join(REPO, "src")]
sys.dont_write_bytecode = True

from harness import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(HERE, REPO, sys.argv[1:]))
