"""Framework shared by all checks.

A check is a module hv/checks/<id>.py with a list FACETS.  Each facet couples a
Hypothesis strategy, which produces a plain JSON-able case, with a function
that runs the code under test on the case and raises Violation when the
property does not hold.  Facets run in separate forked processes, each in its
own scratch directory.  A failing case is shrunk by Hypothesis and written to a
replay file that is run again without Hypothesis by --replay.
"""

import argparse
import contextlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src/"
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

# Soft limits: generation stops (inconclusive, never a violation) when reached.
SOFT_S = {"quick": 150.0, "thorough": 600.0}
SHRINK_S = {"quick": 45.0, "thorough": 120.0}
HARD_S = 840.0


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    """The check could not decide; never reported as a violation."""


class Ctx:
    """Collects what one case exercised."""

    def __init__(self):
        self.labels = []
        self.trivial = False
        self.known = []

    def label(self, name):
        self.labels.append(str(name))

    def skip(self, why=""):
        """Mark the case trivial by the facet's rule."""
        self.trivial = True
        if why:
            self.label("trivial:" + why)

    def known_finding(self, key, message):
        """Report a failure that may be listed as a known finding."""
        self.known.append((key, message))


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", soft=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.n = {"quick": quick, "thorough": thorough or quick * 10}
        self.rule = rule
        self.soft = soft


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
        io.StringIO()
    ):
        yield


def known_keys(prop):
    keys = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                parts = line[len("known:"):].split(None, 2)
                fields = dict(p.split("=", 1) for p in parts[:2])
                if fields.get("property") == prop:
                    keys[fields["key"]] = parts[2] if len(parts) > 2 else ""
    return keys


def _library_raised(exc):
    """True when the exception left library code that was called with inputs
    the property covers; False when the harness itself is at fault."""
    frames = traceback.extract_tb(exc.__traceback__)
    if not frames:
        return False
    in_repo = any(os.path.realpath(f.filename).startswith(REPO_SRC) for f in frames)
    innermost_ours = os.path.realpath(frames[-1].filename).startswith(VERIF + "/hv")
    return in_repo and not innermost_ours


# raised by reading a result that is not what the library documents
MALFORMED = (LookupError, TypeError, AttributeError, ValueError, FileNotFoundError)


def _malformed(exc):
    """What is wrong with a result that could not be read, or None when the
    exception has another cause."""
    if not isinstance(exc, MALFORMED):
        return None
    text = traceback.format_exception_only(type(exc), exc)[-1].strip()
    if isinstance(exc, AttributeError) and ("module " in text or str(exc.name or "_").startswith("_")):
        # a name that moved is not a result
        return None
    frames = [f for f in traceback.extract_tb(exc.__traceback__) if os.path.realpath(f.filename).startswith(VERIF + "/hv/")]
    if not frames or not os.path.realpath(frames[-1].filename).startswith(VERIF + "/hv/checks/"):
        return None
    return f"a result does not have its documented form: {text} (read by {frames[-1].name})"


def run_case(facet, case, known):
    """Returns (ctx, violation message or None)."""
    try:
        return _run_case(facet, case, known)
    except Exception as e:
        message = _malformed(e)
        if message is None:
            raise
    # only if it happens again
    try:
        return _run_case(facet, case, known)
    except Exception as e:
        if _malformed(e) != message:
            raise
    return Ctx(), message


def _run_case(facet, case, known):
    ctx = Ctx()
    try:
        facet.check(case, ctx)
    except Violation as v:
        if v.key is not None and v.key in known:
            ctx.known.append((v.key, str(v)))
        else:
            return ctx, str(v)
    except HarnessError:
        raise
    except Exception as e:
        if _library_raised(e):
            tail = traceback.format_exception_only(type(e), e)[-1].strip()
            where = [
                f
                for f in traceback.extract_tb(e.__traceback__)
                if os.path.realpath(f.filename).startswith(REPO_SRC)
            ][-1]
            return (
                ctx,
                f"library raised on valid input: {tail} "
                f"({os.path.basename(where.filename)}:{where.name})",
            )
        raise
    unlisted = [m for k, m in ctx.known if k not in known]
    if unlisted:
        return ctx, unlisted[0]
    return ctx, None


def run_facet(facet, prop, seed, tier, known):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    warnings.simplefilter("ignore")
    t_start = time.monotonic()
    soft = facet.soft[tier] if facet.soft else SOFT_S[tier]
    stats = {
        "facet": facet.name,
        "evaluations": 0,
        "skipped_after_budget": 0,
        "labels": {},
        "samples": [],
        "known": {},
        "known_count": 0,
        "failure": None,
        "rule": facet.rule,
    }
    seen = set()
    fails = []
    first_fail = [None]

    def body(case):
        now = time.monotonic()
        if first_fail[0] is not None and now - first_fail[0] > SHRINK_S[tier]:
            return
        if first_fail[0] is None and now - t_start > soft:
            stats["skipped_after_budget"] += 1
            return
        text = json.dumps(case, sort_keys=True)
        ctx, message = run_case(facet, case, known)
        if first_fail[0] is None:
            stats["evaluations"] += 1
            for lab in set(ctx.labels):
                stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
            if not ctx.trivial and text not in seen:
                seen.add(text)
                k = len(seen)
                if k in (1, 4, 12) and len(text) < 4000:
                    stats["samples"].append(case)
        for key, msg in ctx.known:
            stats["known"].setdefault(key, msg)
            stats["known_count"] += 1
        if message is not None:
            if first_fail[0] is None:
                first_fail[0] = time.monotonic()
            fails.append((text, message))
            raise Violation(message)

    fseed = (int(seed) * 1000003 + zlib.crc32(f"{prop}/{facet.name}".encode())) % (
        2**63
    )
    test = given(facet.strategy())(body)
    test = settings(
        max_examples=facet.n[tier],
        database=None,
        deadline=None,
        derandomize=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(fseed)(test)
    try:
        with quiet():
            test()
    except BaseException:
        if not fails:
            raise
    if fails:
        # Hypothesis ends on the minimal case; fall back to the shortest seen.
        best = fails[-1]
        short = min(fails, key=lambda f: len(f[0]))
        if len(short[0]) < len(best[0]):
            best = short
        # The reproduction must fail outside Hypothesis as well.
        case = json.loads(best[0])
        with quiet():
            _, message = run_case(facet, case, known)
        if message is None:
            reproduced = False
            for text, _ in reversed(fails[-5:]):
                with quiet():
                    _, message = run_case(facet, json.loads(text), known)
                if message is not None:
                    case, reproduced = json.loads(text), True
                    break
            if not reproduced:
                # Depends on the history of the process: report it all the same.
                message = best[1] + " (depends on earlier evaluations in the process)"
        stats["failure"] = {"case": case, "message": message}
    stats["distinct_nontrivial"] = len(seen)
    stats["wall_s"] = round(time.monotonic() - t_start, 3)
    return stats


def _scratch():
    base = tempfile.mkdtemp(prefix="hvcheck-")
    os.chdir(base)
    return base


def _child(facet, prop, seed, tier, known, out_path):
    scratch = _scratch()
    code = 0
    try:
        stats = run_facet(facet, prop, seed, tier, known)
    except BaseException:
        stats = {"facet": facet.name, "error": traceback.format_exc()}
        code = 3
    try:
        with open(out_path, "w") as f:
            json.dump(stats, f, default=float)
    except BaseException:
        code = 3
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(code)


def run_all(facets, prop, seed, tier, known):
    """Run facets in forked processes, at most one per core."""
    work = tempfile.mkdtemp(prefix="hvcheck-out-")
    width = max(1, min(len(facets), os.cpu_count() or 1))
    todo = list(enumerate(facets))
    running = {}
    results = [None] * len(facets)
    deadline = time.monotonic() + HARD_S
    try:
        while todo or running:
            while todo and len(running) < width:
                i, facet = todo.pop(0)
                out = os.path.join(work, f"{i}.json")
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.setsid()
                    _child(facet, prop, seed, tier, known, out)
                running[pid] = (i, facet, out)
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() > deadline:
                    raise HarnessError("check exceeded its hard time limit")
                time.sleep(0.01)
                continue
            if pid not in running:
                continue
            i, facet, out = running.pop(pid)
            try:
                with open(out) as f:
                    results[i] = json.load(f)
            except Exception:
                results[i] = {
                    "facet": facet.name,
                    "error": f"facet process ended with status {status}",
                }
    finally:
        for pid in running:
            with contextlib.suppress(OSError):
                os.killpg(pid, signal.SIGKILL)
        shutil.rmtree(work, ignore_errors=True)
    return results


def _import_library():
    # Third-party modules may come from their caches, the library never does:
    # a stale cache could hide an edit made within the same second.
    import hypothesis  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import scipy.optimize  # noqa: F401
    import stl  # noqa: F401

    sys.pycache_prefix = "/nonexistent/hv-no-bytecode"
    import hypervehicle

    return hypervehicle


def setup():
    """Nothing to build: confirm that the pieces can be imported."""
    import hypothesis

    library = _import_library()
    print(f"hypothesis {hypothesis.__version__}, library {library.__file__}")
    return 0


def _load(prop):
    hypervehicle = _import_library()

    path = os.path.realpath(hypervehicle.__file__)
    if not path.startswith(REPO_SRC):
        raise HarnessError(f"hypervehicle imported from {path}")
    return importlib.import_module(f"hv.checks.{prop.lower()}")


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args(argv)
    prop = args.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    warnings.simplefilter("ignore")
    t0 = time.monotonic()
    try:
        module = _load(prop)
    except Exception:
        traceback.print_exc()
        return 2
    facets = list(module.FACETS)
    known = known_keys(prop)

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        facet = {x.name: x for x in facets}[rep["facet"]]
        scratch = _scratch()
        try:
            with quiet():
                _, message = run_case(facet, rep["case"], known)
        finally:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
        if message:
            print(message)
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("replay passes")
        return 0

    if args.facet:
        facets = [x for x in facets if x.name == args.facet]
    try:
        results = run_all(facets, prop, seed, tier, known)
    except Exception:
        traceback.print_exc()
        return 2

    errors = [r for r in results if r is None or "error" in r]
    good = [r for r in results if r is not None and "error" not in r]
    violations = [r for r in good if r["failure"]]
    code = 0
    lines = []
    for r in violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{r['facet']}-seed{seed}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "facet": r["facet"],
                    "seed": seed,
                    "message": r["failure"]["message"],
                    "case": r["failure"]["case"],
                },
                f,
                indent=1,
            )
        lines.append(f"  {r['facet']}: {r['failure']['message']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    listed = {}
    for r in good:
        for key in r["known"]:
            listed.setdefault(key, known.get(key, ""))
    for key, what in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={prop} {key}: {what}")

    evaluations = sum(r["evaluations"] for r in good)
    distinct = sum(r["distinct_nontrivial"] for r in good)
    samples = []
    for r in good:
        for s in r["samples"][:2]:
            samples.append({"facet": r["facet"], "case": s})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": " | ".join(f"{r['facet']}: {r['rule']}" for r in good),
            "samples": samples[:24],
            "facets": [
                {
                    "facet": r["facet"],
                    "evaluations": r["evaluations"],
                    "distinct_nontrivial": r["distinct_nontrivial"],
                    "labels": dict(sorted(r["labels"].items())),
                    "skipped_after_budget": r["skipped_after_budget"],
                    "known_findings_met": r["known_count"],
                    "wall_s": r["wall_s"],
                }
                for r in good
            ],
            "exhaustive": False,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "violations": len(violations),
        "wall_s": round(time.monotonic() - t0, 3),
    }
    if not args.facet:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    if args.verbose:
        for r in good:
            print(
                f"  {r['facet']}: {r['evaluations']} cases, "
                f"{r['distinct_nontrivial']} non-trivial, {r['wall_s']} s, "
                f"skipped {r['skipped_after_budget']}, {r['labels']}"
            )
    for line in lines:
        print(line)
    if errors:
        for r in errors:
            print(f"CHECK-ERROR {r}" if r is None else
                  f"CHECK-ERROR facet={r['facet']}\n{r['error']}", file=sys.stderr)
        if code == 0:
            return 2
    if code == 0:
        print(
            f"{prop} held: {evaluations} cases, {distinct} distinct non-trivial, "
            f"{evidence['wall_s']} s"
        )
    return code
