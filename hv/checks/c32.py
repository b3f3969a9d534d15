"""C32: the same definition gives the same result in every process."""

import atexit
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from hv.checks import c30
from hv.checks.c05 import own_directory, read_stl, tree
from hv.checks.c07 import constructor, study_case
from hv.checks.c10 import sample
from hv.checks.c19 import section_case
from hv.comp import build_component, component_spec, mesh_of
from hv.core import Facet, HarnessError, Violation
from hv.gen import V, build_motion, grid_params, motion_spec, num, xyz
from hv.oracle import require

PEER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "peer.py")


# --------------------------------------------------- what a definition gives


def observe(case):
    return globals()["see_" + case["job"]](case)


def see_component(case):
    c = build_component(case["c"])
    c.generate_patches()
    for name, *x in map(build_motion, case["m"]):
        getattr(c, name)(*x)
    out = {"points": [[xyz(p(*a)) for a in case["at"]] for p in c.patches.values()], "mesh": mesh_of(c)}
    out["checked"] = [float(bool(c.stl_check()))]
    return out


def see_section(case):
    from hypervehicle.geometry import CoonsPatch
    from hypervehicle.geometry.geometry import SweptPatch

    ax = "xyz".index(case["axis"])
    i, j = [k for k in range(3) if k != ax]

    def pt(a, b, h):
        p = [0.0, 0.0, 0.0]
        p[i], p[j], p[ax] = a, b, h
        return V(p)

    patches = [
        CoonsPatch(p00=pt(x, y, h), p10=pt(x + w, y, h), p11=pt(x + w, y + t, h), p01=pt(x, y + t, h)) for w, t, x, y, h in case["s"]
    ]
    s = SweptPatch(patches, case["axis"])
    return [xyz(s(*q)) for q in case["q"]]


def see_repair(case):
    from hypervehicle.components import Cube

    c = Cube(1.0, stl_resolution=case["res"], verbosity=0)
    c._multiprocess = False
    c.generate_patches()
    v = c.mesh.vectors
    r = np.random.default_rng(case["seed"])
    v += r.uniform(-case["size"], case["size"], v.shape).astype(v.dtype)
    c.stl_repair(case["reach"])
    return {"mesh": mesh_of(c), "ok": [float(bool(c.stl_check()))]}


def see_vehicle(case):
    return c30.history(case, 0, False)


def see_hangar(case):
    return sample(case["name"], case["kw"])


def see_study(case):
    from hypervehicle.utilities import SensitivityStudy

    s = SensitivityStudy(constructor(case), verbosity=0)
    with own_directory():
        kw = {"overrides": dict(case["over"])} if case["over"] else {}
        got = s.dvdp(dict(map(tuple, case["P"])), perturbation=case["pert"], nominal_stl_prefix="nom", **kw)
        s.to_csv()
        out = {"returned": {p: {c: {"columns": list(df.columns), "values": df.values} for c, df in t.items()} for p, t in got.items()}}
        out["files"] = tree()
        out["text"] = {f: open(f).read() for f in out["files"] if not f.endswith(".stl")}
        out["stl"] = {f: read_stl(f) for f in out["files"] if f.endswith(".stl")}
    return out


# ------------------------------------------------------------------ the peers


class Peer:
    def __init__(self, where, **env):
        os.makedirs(where, exist_ok=True)
        self.p = subprocess.Popen(
            [sys.executable, PEER],
            cwd=where,
            env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **env},
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
        )

    def ask(self, case, before):
        try:
            self.p.stdin.write((json.dumps({"case": case, "before": before}) + "\n").encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError as e:
            raise HarnessError(f"peer process: {e}")
        if not line:
            raise HarnessError("peer process ended")
        got = json.loads(line)
        if "error" in got:
            raise HarnessError(got["error"])
        return got


PEERS = {}


def peers():
    if PEERS.get("pid") != os.getpid():
        PEERS.clear()
        PEERS["pid"] = os.getpid()
        PEERS["all"] = [
            Peer("one", PYTHONHASHSEED="0"),
            Peer("two/with a blank", PYTHONHASHSEED="1", LC_ALL="C", TZ="Asia/Tokyo"),
            Peer("two", PYTHONHASHSEED="4242", LANG="C.UTF-8", COLUMNS="40"),
            Peer("three", PYTHONHASHSEED="77", HOME="/nonexistent"),
        ]
        atexit.register(lambda: [p.p.kill() for p in PEERS["all"]])
    return PEERS["all"]


def same(a, b, what):
    if isinstance(b, dict):
        require(isinstance(a, dict) and list(a) == list(b), f"{what}: {list(a)} instead of {list(b)}")
        for k in b:
            same(a[k], b[k], f"{what} {k}")
    elif isinstance(b, list) and not all(isinstance(x, (float, int)) for x in b):
        require(isinstance(a, list) and len(a) == len(b), f"{what}: another number of entries")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what} {i}")
    elif isinstance(b, str):
        require(a == b, f"{what}: {a!r:.200} instead of {b!r:.200}")
    else:
        a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
        require(a.shape == b.shape, f"{what}: another number of entries")
        size = 1 + (np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0.0)
        near = np.isclose(a, b, rtol=0, atol=1e-12 * size, equal_nan=True)
        require(bool(near.all()), f"{what} differs by {np.nanmax(np.abs(a - b)):.3g}")


def everywhere(case, ctx):
    all_ = peers()
    first = all_[0].ask(case["case"], [])
    if "failed" in first:
        raise Violation(first["failed"])
    for i in case["in"]:
        got = all_[i].ask(case["case"], case["before"])
        env = f"in another process (hash seed, directory and environment {i}, {len(case['before'])} other jobs before)"
        if "failed" in got:
            raise Violation(f"{got['failed']} {env}")
        same(got["ok"], first["ok"], f"{case['case']['job']} {env}:")
    ctx.label(case["case"]["job"])
    ctx.label(f"{len(case['before'])} jobs before")


# ------------------------------------------------------------------ generators


@st.composite
def component_job(draw, kinds=c30.CHEAP):
    return {
        "job": "component",
        "c": draw(component_spec(kinds)),
        "m": [draw(motion_spec()) for _ in range(draw(st.integers(0, 1)))],
        "at": draw(grid_params(2)),
    }


@st.composite
def section_job(draw):
    return {"job": "section", **draw(section_case())}


@st.composite
def repair_job(draw):
    return {
        "job": "repair",
        "res": draw(st.integers(1, 3)),
        "seed": draw(st.integers(0, 10**6)),
        "size": draw(st.sampled_from([1e-5, 1e-4, 1e-3])),
        "reach": 1e-2,
    }


@st.composite
def vehicle_job(draw):
    return {"job": "vehicle", **draw(c30.veh_case())}


@st.composite
def hangar_job(draw):
    return {"job": "hangar", "name": draw(st.sampled_from(["Wedge", "Finner", "HTV", "Falcon9"])), "kw": {}}


@st.composite
def study_job(draw):
    c = draw(study_case(named=True, params=(2, 4), comps=(1, 3)))
    if draw(st.booleans()):
        c["dens"] = [draw(num(0.5, 20)) for _ in c["comps"]]
    return {"job": "study", **c}


@st.composite
def job_case(draw, job, most=2):
    others = st.one_of(component_job(), section_job(), repair_job(), job)
    return {
        "case": draw(job),
        "before": draw(st.lists(others, max_size=most)),
        "in": draw(st.sampled_from([[1], [2], [3], [1, 2], [2, 3], [1, 2, 3]])),
    }


FACETS = [
    Facet("component", lambda: job_case(component_job()), everywhere, 60, rule="every case"),
    Facet("wingfin", lambda: job_case(component_job(kinds=("fin", "wing"))), everywhere, 6, rule="every case"),
    Facet("section", lambda: job_case(section_job()), everywhere, 60, rule="every case"),
    Facet("repair", lambda: job_case(repair_job()), everywhere, 40, rule="every case"),
    Facet("vehicle", lambda: job_case(vehicle_job(), most=1), everywhere, 25, rule="every case"),
    Facet("study", lambda: job_case(study_job(), most=1), everywhere, 12, rule="every case"),
    Facet("hangar", lambda: job_case(hangar_job(), most=1), everywhere, 6, rule="every case"),
]
ASSUMPTIONS = ["processes on the same machine with the same versions of the numerical libraries"]
