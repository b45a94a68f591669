"""run.py <check> [--quick|--thorough] [-v] [--only REGEX] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") or \
        os.environ.get("SYMX_ENV") != "1":
    env = dict(os.environ, SYMX_ENV="1", PYTHONDONTWRITEBYTECODE="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import boot  # noqa: E402

boot.setup()
from symx import runner  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "setup":
        sys.exit(runner.setup())
    sys.exit(runner.main(sys.argv[1].lower(), sys.argv[2:]))
