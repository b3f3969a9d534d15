"""Entry point of every check:  run.py <property id> [--replay FILE] [--facet NAME]

VERIF_SEED and VERIF_TIER (quick|thorough) come from the environment.
Exit 0: the property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed.  Exit 2 or more: the check
itself failed and says nothing about the property.
"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
}

if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)
if "/repo/src" not in sys.path:
    sys.path.insert(0, "/repo/src")

from hv import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(core.setup())
    sys.exit(core.main(sys.argv[1:]))
