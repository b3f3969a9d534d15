"""C35: independent work may be interleaved, in threads and within functions of the user."""

import os
import shutil
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

import hv.gen as gen
from hv.checks.c05 import read_stl
from hv.checks.c07 import constructor, study_case, tables_of
from hv.checks.c30 import make_path, path_case, same, value
from hv.comp import build_component, build_options, component_spec, mesh_of, vehicle_spec
from hv.core import Facet
from hv.gen import build_motion, build_path, build_surface, grid_params, motion_spec, num, polyline_spec, path_spec, surface_spec, xyz
from hv.oracle import require

# ------------------------------------------------------------------- interleaving


PATIENCE = [30.0]


class Baton:
    """Exactly one thread runs at a time; at every call of a function or curve
    of the user the schedule says which thread runs next, so that a case always
    gives the same interleaving. If the thread whose turn it is does not get on
    (say, because it waits for something that another one holds), all run
    freely."""

    def __init__(self, n, schedule):
        self.lock = threading.Condition()
        self.alive = list(range(n))
        self.schedule = schedule
        self.i = 0
        self.switches = 0
        self.free = False
        self.turn = self.alive[schedule[0] % n]

    def choose(self):
        self.i += 1
        k = self.schedule[self.i % len(self.schedule)]
        return self.alive[k % len(self.alive)] if self.alive else None

    def wait(self, me):
        while not (self.free or self.turn == me):
            i = self.i
            if not self.lock.wait_for(lambda: self.free or self.turn == me, PATIENCE[0]) and i == self.i:
                self.free = True
                PATIENCE[0] = 0.5
                self.lock.notify_all()

    def pause(self, me):
        with self.lock:
            if self.free:
                return
            nxt = self.choose()
            if nxt == me:
                return
            self.switches += 1
            self.turn = nxt
            self.lock.notify_all()
            self.wait(me)

    def start(self, me):
        with self.lock:
            self.wait(me)

    def end(self, me):
        with self.lock:
            self.alive.remove(me)
            self.turn = self.choose()
            self.lock.notify_all()


HERE = threading.local()


def pausing(n):
    """A wrapper of functions that lets another thread run before every n-th
    call."""

    def wrap(f):
        count = [0]

        def g(*a, **k):
            b = getattr(HERE, "baton", None)
            if b is not None:
                count[0] += 1
                if count[0] % n == 0:
                    b.pause(HERE.me)
            return f(*a, **k)

        return g

    return wrap


def pausing_curve(n):
    from hypervehicle.geometry.path import Path

    class Paused(Path):
        def __init__(self, curve):
            self.curve = curve
            self.count = 0

        def __repr__(self):
            return repr(self.curve)

        def __call__(self, t):
            b = getattr(HERE, "baton", None)
            self.count += 1
            if b is not None and self.count % n == 0:
                b.pause(HERE.me)
            return self.curve(t)

        def length(self):
            return self.curve.length()

    return Paused


def pausing_surface(n):
    from hypervehicle.geometry.surface import ParametricSurface

    class Paused(ParametricSurface):
        def __init__(self, surface):
            self.surface = surface
            self.count = 0

        def __repr__(self):
            return repr(self.surface)

        def __call__(self, r, s):
            b = getattr(HERE, "baton", None)
            self.count += 1
            if b is not None and self.count % n == 0:
                b.pause(HERE.me)
            return self.surface(r, s)

    return Paused


def wrapped(f, path, surface, function):
    old = gen.WRAP_PATH, gen.WRAP_SURFACE, gen.WRAP_FUNCTION
    gen.WRAP_PATH, gen.WRAP_SURFACE, gen.WRAP_FUNCTION = path, surface, function
    try:
        return f()
    finally:
        gen.WRAP_PATH, gen.WRAP_SURFACE, gen.WRAP_FUNCTION = old


def together(jobs, schedule, n):
    """Results of the jobs run in one thread each, and the number of switches."""
    baton = Baton(len(jobs), schedule)
    out, err = [None] * len(jobs), [None] * len(jobs)

    def body(i):
        HERE.baton, HERE.me = baton, i
        baton.start(i)
        try:
            out[i] = jobs[i]()
        except BaseException as e:
            err[i] = e
        finally:
            HERE.baton = None
            baton.end(i)

    def run():
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    wrapped(run, pausing_curve(n), pausing_surface(n), pausing(n))
    for e in err:
        if e is not None:
            raise e
    return out, baton.switches


# --------------------------------------------------------------------------- jobs


@st.composite
def curve_job(draw):
    c = draw(path_case())
    c["p"] = draw(st.one_of(path_spec(), polyline_spec(2, 5)))
    c["d"] = draw(st.sampled_from(["plain", "arclength", "sub", "reversed", "offset", "mean"]))
    return {"j": "curve", "c": c}


@st.composite
def length_job(draw):
    """A curve parameterised by its arc length, which is tabulated first."""
    j = draw(curve_job())
    j["c"]["d"] = "arclength"
    return j


@st.composite
def surface_job(draw):
    return {"j": "surface", "s": draw(surface_spec(depth=2)), "at": draw(grid_params(3)), "n": [draw(st.integers(1, 3)), draw(st.integers(1, 3))]}


@st.composite
def component_job(draw, kinds=("revolved", "swept", "ogive", "composite", "cube", "sphere")):
    return {
        "j": "component",
        "c": draw(component_spec(kinds)),
        "m": [draw(motion_spec()) for _ in range(draw(st.integers(0, 2)))],
        "at": draw(grid_params(2)),
        "clus": {k: draw(num(0.5, 2)) for k in draw(st.sampled_from(["", "i", "j", "ij"]))},
        "twice": draw(st.booleans()),
        "repair": draw(st.booleans()),
    }


@st.composite
def vehicle_job(draw, kinds=("revolved", "swept", "ogive", "composite"), n=(1, 2)):
    v = draw(vehicle_spec(kinds=kinds, n=n, rich=True))
    for i, c in enumerate(v["comps"]):
        c["o"]["name"] = f"part {i}"
    return {
        "j": "vehicle",
        "v": v,
        "dens": [draw(num(0.5, 5)) for _ in v["comps"]] if draw(st.booleans()) else None,
        "move": draw(motion_spec()) if draw(st.booleans()) else None,
        "write": draw(st.booleans()),
        "at": draw(grid_params(2)),
    }


@st.composite
def study_job(draw):
    return {"j": "study", "c": draw(study_case(named=True, params=(1, 2), comps=(1, 1)))}


def run_curve(job):
    p = make_path(job["c"])
    return {"points": [value(p(t)) for t in job["c"]["t"]], "length": float(p.length())}


def run_surface(job):
    from hypervehicle.utilities import surfce_to_stl

    s = build_surface(job["s"])
    return {"points": [xyz(s(*u)) for u in job["at"]], "mesh": np.array(surfce_to_stl(s, *job["n"]).vectors, float)}


def run_component(job):
    from hv.comp import build_clustering

    c = build_component(job["c"])
    if job["clus"]:
        c.add_clustering_options(**build_clustering(job["clus"]))
    c.generate_patches()
    out = {}
    if job["twice"]:
        c.surface()
        out["before"] = mesh_of(c)
    for m in job["m"]:
        n, *args = build_motion(m)
        getattr(c, n)(*args)
    out["points"] = [[xyz(p(*u)) for u in job["at"]] for p in c.patches.values()]
    out["mesh"] = mesh_of(c)
    if job["repair"]:
        c.stl_repair(1e-4)
        out["repaired"] = mesh_of(c)
    return out


def run_vehicle(job):
    from hypervehicle import Vehicle

    v = job["v"]
    veh = Vehicle()
    veh.configure(name="veh", verbosity=0)
    if "angle" in v:
        veh.vehicle_angle_offset = v["angle"]
    for x in v["comps"]:
        veh.add_component(build_component(x["c"]), **build_options(x["o"]))
    if "vt" in v:
        veh.add_vehicle_transformations([build_motion(m) for m in v["vt"]])
    dens = {f"part {i}": d for i, d in enumerate(job["dens"])} if job["dens"] else None
    if dens:
        veh.analyse_after_generating(dens)
    veh.generate()
    if job["move"]:
        veh.transform(build_motion(job["move"]))
    out = {"points": [[[xyz(p(*u)) for u in job["at"]] for p in c.patches.values()] for c in veh.components]}
    if job["write"]:
        d = tempfile.mkdtemp(prefix="c35-")
        try:
            veh.to_stl(prefix=os.path.join(d, "run"))
            out["files"] = {f: read_stl(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith(".stl")}
        finally:
            shutil.rmtree(d)
    out["meshes"] = [mesh_of(c) for c in veh.components]
    if dens:
        kept = veh.analysis_results
        require(bool(kept), "no results kept of the analysis asked for")
        out["kept"] = {k: np.asarray(x, float) for k, x in kept.items()}
    return out


def run_study(job):
    from hypervehicle.utilities import SensitivityStudy

    c = job["c"]
    s = SensitivityStudy(constructor(c), verbosity=0)
    kw = {"overrides": dict(c["over"])} if c["over"] else {}
    s.dvdp(dict(map(tuple, c["P"])), perturbation=c["pert"], write_nominal_stl=False, **kw)
    return {n: df.values for n, df in tables_of(s).items()}


RUN = {"curve": run_curve, "surface": run_surface, "component": run_component, "vehicle": run_vehicle, "study": run_study}


def do(job):
    return RUN[job["j"]](job)


# ------------------------------------------------------------------------- facets


@st.composite
def threads_case(draw, job, n=(2, 3), every=(1, 3)):
    k = draw(st.integers(*n))
    jobs = [draw(job()) for _ in range(k)]
    return {
        "jobs": jobs,
        "schedule": draw(st.lists(st.integers(0, k - 1), min_size=2, max_size=10)) + list(range(k)),
        "every": draw(st.integers(*every)),
    }


def threads(case, ctx):
    want = [do(j) for j in case["jobs"]]
    got, switches = together([lambda j=j: do(j) for j in case["jobs"]], case["schedule"], case["every"])
    for j, a, b in zip(case["jobs"], got, want):
        same(a, b, f"{j['j']} made while another thread works on something else:")
        ctx.label(j["j"])
    ctx.label("switches " + ("none" if not switches else "1-9" if switches < 10 else "10-99" if switches < 100 else "100+"))
    if not switches:
        ctx.skip("the threads were not interleaved")


@st.composite
def nested_case(draw, job, inner):
    return {
        "job": draw(job()),
        "inner": draw(inner()),
        "at": draw(st.lists(st.integers(1, 12), min_size=1, max_size=3, unique=True)),
    }


def nested(case, ctx):
    """A function or curve of the user makes geometry of its own when called."""
    want, mine = do(case["job"]), do(case["inner"])
    calls = [0]
    inside = []

    def visit():
        calls[0] += 1
        if calls[0] in case["at"]:
            inside.append(wrapped(lambda: do(case["inner"]), None, None, None))

    def function(f):
        def g(*a, **k):
            visit()
            return f(*a, **k)

        return g

    from hypervehicle.geometry.path import Path

    class Curve(Path):
        def __init__(self, curve):
            self.curve = curve

        def __repr__(self):
            return repr(self.curve)

        def __call__(self, t):
            visit()
            return self.curve(t)

        def length(self):
            return self.curve.length()

    from hypervehicle.geometry.surface import ParametricSurface

    class Surface(ParametricSurface):
        def __init__(self, surface):
            self.surface = surface

        def __repr__(self):
            return repr(self.surface)

        def __call__(self, r, s):
            visit()
            return self.surface(r, s)

    got = wrapped(lambda: do(case["job"]), Curve, Surface, function)
    same(got, want, f"{case['job']['j']} whose functions make a {case['inner']['j']}:")
    for r in inside:
        same(r, mine, f"{case['inner']['j']} made within a function of a {case['job']['j']}:")
    ctx.label(f"{case['inner']['j']} in {case['job']['j']}")
    if not inside:
        ctx.skip("no function was called")


def small():
    return st.one_of(curve_job(), surface_job(), component_job(("revolved", "swept", "sphere")))


FACETS = [
    Facet("curves", lambda: threads_case(curve_job), threads, 150, rule="the threads changed at least once within their work"),
    Facet("lengths", lambda: threads_case(length_job, n=(2, 2)), threads, 40, rule="the threads changed at least once within their work"),
    Facet("surfaces", lambda: threads_case(surface_job), threads, 80, rule="the threads changed at least once within their work"),
    Facet("components", lambda: threads_case(component_job), threads, 50, rule="the threads changed at least once within their work"),
    Facet("sections", lambda: threads_case(lambda: component_job(("revolved", "swept"))), threads, 40, rule="the threads changed at least once within their work"),
    Facet("wingfin", lambda: threads_case(lambda: component_job(("wing", "fin")), n=(2, 2)), threads, 5, rule="the threads changed at least once within their work"),
    Facet("vehicles", lambda: threads_case(vehicle_job, n=(2, 2)), threads, 20, rule="the threads changed at least once within their work"),
    Facet("studies", lambda: threads_case(study_job, n=(2, 2)), threads, 8, rule="the threads changed at least once within their work"),
    Facet("nested", lambda: nested_case(small, small), nested, 100, rule="a function or curve of the user was called and made something"),
    Facet("nested-vehicle", lambda: nested_case(vehicle_job, small), nested, 16, rule="a function or curve of the user was called and made something"),
    Facet("nested-wingfin", lambda: nested_case(lambda: component_job(("wing", "fin")), lambda: component_job(("wing", "fin", "revolved"))), nested, 4, rule="a function or curve of the user was called and made something"),
]
ASSUMPTIONS = [
    "each thread works on objects of its own, in series; threads change only where a function, curve or surface of the user is called",
]
