"""A process of its own for C32: runs each job it reads in a fresh fork.

Reads one JSON job per line from standard input and writes one JSON answer per
line to standard output. The hash seed, the working directory and the
environment are those it was started with. Ends with its input.
"""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:] = [HERE, os.path.join(HERE, "vendor"), "/repo/src"] + [
    p for p in sys.path if os.path.abspath(p or ".") != os.path.join(HERE, "hv")
]


def plain(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, str):
        return x
    return np.asarray(x, float).tolist()


def answer(job):
    import traceback

    from hv.core import Violation, _library_raised, _malformed, quiet
    from hv.checks.c32 import observe

    try:
        with quiet():
            for other in job["before"]:
                observe(other)
            got = observe(job["case"])
        return {"ok": plain(got)}
    except Violation as e:
        return {"failed": str(e)}
    except Exception as e:
        text = "".join(traceback.format_exception_only(type(e), e)).strip()
        if _library_raised(e):
            return {"failed": f"library raised on valid input: {text}"}
        if _malformed(e):
            return {"failed": _malformed(e)}
        return {"error": traceback.format_exc()}


def main():
    from hv import core

    core._load("C32")
    out = os.dup(1)
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            data = json.dumps(answer(job)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        data = data or b'{"error": "the job ended without an answer"}'
        with os.fdopen(os.dup(out), "wb") as f:
            f.write(data + b"\n")


if __name__ == "__main__":
    main()
