"""C29: failures reach the caller and leave no half-made results behind.

User functions and curves fail while a switch is on, in a part of space only,
so that some of the work is done before.
"""

import os

import numpy as np
from hypothesis import strategies as st

from hv.checks.c02 import tessellate
from hv.checks.c05 import own_directory, read_stl
from hv.checks.c06 import keys, outward, rigid_motion
from hv.checks.c07 import tables_of
from hv.comp import build_component, build_options, component_spec, fresh_patches, mesh_of, polygon_spec, revolved_spec, swept_spec
from hv.core import Facet
from hv.gen import V, build_motion, build_path, num, param, ref_motion, vec, xyz
from hv.oracle import close, require, signed_volume


class Fails(Exception):
    pass


ERRORS = [Fails, ValueError, ZeroDivisionError, ArithmeticError, KeyError, IndexError, AttributeError, TypeError, RuntimeError, NotImplementedError, OSError]
TEXT = "user function failed"


def error():
    return st.integers(0, len(ERRORS) - 1)


class Switch:
    def __init__(self, kind=0):
        self.on = False
        self.hits = 0
        self.kind = ERRORS[kind]

    def check(self, bad):
        if self.on and bad:
            self.hits += 1
            raise self.kind(TEXT)


def guarded_offset(v, where, switch):
    """Displacement by v that fails beyond a plane while the switch is on."""
    i, lim = where

    def f(x, y, z):
        switch.check((x, y, z)[i] > lim)
        return V(v)

    return f


def guarded_path(p, t0, switch):
    """The same curve, failing beyond t0 while the switch is on."""
    from hypervehicle.geometry.path import Path

    class Guarded(Path):
        def __call__(self, t):
            switch.check(t >= t0)
            return p(t)

        def __repr__(self):
            return "Guarded()"

        def length(self):
            return p.length()

    return Guarded()


def attempt(fn):
    """(True, value) or (False, None) when the user function's error, and no
    other, came through."""
    try:
        return True, fn()
    except Exception as e:
        x = e
        while x is not None and TEXT not in str(x):
            x = x.__cause__ or x.__context__
        if x is None:
            raise
        return False, None


# ------------------------------------------------------------------ components


@st.composite
def comp_case(draw, kinds=("revolved", "ogive", "swept", "cube", "sphere"), most=7):
    ops = [["on"]] if draw(st.booleans()) else []
    for _ in range(draw(st.integers(3, most))):
        k = draw(st.sampled_from(["mesh", "mesh", "surface", "on", "off", "stl", "move"]))
        if k == "surface":
            ops.append([k, draw(st.one_of(st.none(), st.integers(1, 3)))])
        elif k == "move":
            ops.append([k, draw(rigid_motion())])
        else:
            ops.append([k])
    return {
        "c": {**draw(component_spec(kinds)), "res": draw(st.integers(1, 3))},
        "v": draw(vec(2)),
        "where": [draw(st.integers(0, 2)), draw(param())],
        "how": draw(st.sampled_from(["offset", "offset", "cluster"])),
        "err": draw(error()),
        "ops": ops,
    }


def component(case, ctx, serial=True):
    s = case["c"]
    base = fresh_patches(s)
    sample = np.array([xyz(p(a, b)) for p in base for a in (0.0, 0.5, 1.0) for b in (0.0, 0.5, 1.0)])
    axis, share = case["where"]
    lim = float(sample[:, axis].min() + share * np.ptp(sample[:, axis]))
    switch = Switch(case["err"])
    c = build_component(s, serial=serial)
    c.generate_patches()
    shift = np.zeros(3)
    if case["how"] == "offset":
        c.translate(guarded_offset(case["v"], (axis, lim), switch))
        shift = np.array(case["v"])
    else:
        def cluster(x):
            switch.check(x >= share)
            return x

        c.add_clustering_options(i_clustering_func=cluster)
    maps = []

    def reference(n):
        g = [i / n for i in range(n + 1)]

        def f(p):
            p = p + shift
            for h in maps:
                p = h(p)
            return p

        return np.concatenate([tessellate(lambda r, t, q=q: f(xyz(q(r, t))), g, g) for q in base])

    # resolutions a complete mesh may have: the last one asked for or, when
    # that failed or the surfaces changed, the component's own
    allowed = {s["res"]}
    failed = succeeded = after = 0

    def complete(m, what):
        errors = []
        for n in sorted(allowed):
            want = reference(n)
            if m.shape == want.shape:
                errors.append(np.abs(m - want).max() / (1 + np.abs(want).max()))
        require(
            errors and min(errors) < 3e-6,
            f"{what}: {len(m)} triangles are not the complete mesh ({[4 * n * n * len(base) for n in sorted(allowed)]} triangles) after {case['ops']}",
        )

    with own_directory():
        for i, (k, *a) in enumerate(case["ops"] + [["off"], ["mesh"], ["stl"]]):
            if k in ("on", "off"):
                switch.on = k == "on"
                continue
            if k == "move":
                m, *args = build_motion(a[0])
                getattr(c, m)(*args)
                maps.append(ref_motion(a[0]))
                allowed = {s["res"]}
                continue
            if k == "mesh":
                ok, m = attempt(lambda: mesh_of(c))
            elif k == "surface":
                n = a[0]
                ok, m = attempt(lambda: (c.surface() if n is None else c.surface(resolution=n), mesh_of(c))[1])
                allowed = {n or s["res"]} if ok else allowed | {s["res"]}
            else:
                f = f"out{i}.stl"
                ok, m = attempt(lambda: (c.to_stl(f), read_stl(f))[1])
            if ok:
                complete(m, f"{k} in step {i}")
                after += failed > 0
            else:
                failed += 1
                require(switch.on, f"{k} in step {i} failed although nothing fails any more")
    ctx.label(case["how"])
    ctx.label(s["k"])
    ctx.label(switch.kind.__name__)
    if failed:
        ctx.label("failed")
    if not (failed and after):
        ctx.skip("nothing failed")


def workers(case, ctx):
    component(case, ctx, serial=False)


# -------------------------------------------------------------------- vehicles


def body():
    return st.one_of(
        revolved_spec(True, res=(2, 3)),
        swept_spec(closed=True, res=(1, 2), per_edge=False),
        polygon_spec(res=(2, 2)).map(lambda p: {"k": "composite", "children": [{"c": p, "o": {}}], "res": p["res"]}),
    )


@st.composite
def vehicle_case(draw, results=False):
    comps = []
    for i in range(draw(st.integers(2, 3))):
        c = {"c": draw(body()), "o": {"name": f"part{i}"}, "v": draw(vec(2)), "d": draw(num(0.5, 3))}
        c["where"] = [draw(st.integers(0, 2)), draw(num(-3, 0))]
        # what may fail: the modifier, or an edge of the cross-sections
        swept = c["c"]["k"] == "swept"
        c["how"] = draw(st.sampled_from(["modifier", "edge", "nothing"] if swept else ["modifier", "nothing"])) if i else "modifier"
        c["t0"] = draw(param())
        if draw(st.booleans()):
            c["o"]["tr"] = [draw(rigid_motion())]
        comps.append(c)
    # something of each kind happens while functions fail
    auto = results or draw(st.booleans())
    if auto and draw(st.booleans()):
        ops = [["on"], ["generate"]]
    else:
        # without an analysis, generating evaluates no surface
        ops = [["generate"], ["on"], [draw(st.sampled_from(["analyse", "stl", "generate"]))]]
    if results:
        # results kept from before meet a transformation that cannot renew them
        ops = [["generate"], ["on"], ["transform", draw(rigid_motion())], [draw(st.sampled_from(["off", "on"]))]]
    for _ in range(draw(st.integers(0, 3) if results else st.integers(2, 8))):
        k = draw(st.sampled_from(["generate", "generate", "transform", "on", "on", "off", "mesh", "stl", "analyse"]))
        if k == "transform":
            ops.append([k, draw(rigid_motion())])
        elif k == "mesh":
            ops.append([k, draw(st.integers(0, 2))])
        else:
            ops.append([k])
    return {"comps": comps, "ops": ops, "auto": auto, "err": draw(error())}


def guarded_swept(s, which, t0, switch):
    from hypervehicle.components import SweptComponent

    loops = [[build_path(e) for e in loop] for loop in s["cs"]]
    loops[-1][which] = guarded_path(loops[-1][which], t0, switch)
    c = SweptComponent(loops, close_ends=s["close"], stl_resolution=s["res"], verbosity=0)
    c._multiprocess = False
    return c


def build(case, comps, switch):
    from hypervehicle import Vehicle

    veh = Vehicle()
    veh.configure(name="veh", verbosity=0)
    for c in comps:
        o = build_options(c["o"])
        o["modifier_function"] = (lambda v: lambda x, y, z: V(v))(c["v"])
        made = None
        if switch is not None and c["how"] == "modifier":
            o["modifier_function"] = guarded_offset(c["v"], c["where"], switch)
        elif switch is not None and c["how"] == "edge" and c["c"]["k"] == "swept":
            made = guarded_swept(c["c"], 1, c["t0"], switch)
        veh.add_component(made or build_component(c["c"]), **o)
    if case["auto"]:
        veh.analyse_after_generating({k: c["d"] for k, c in zip(keys(comps), comps)})
    return veh


def vehicle(case, ctx):
    """A vehicle that meets failures against one that never does."""
    comps = [{**c, "c": outward(c["c"])} for c in case["comps"]]
    dens = {k: c["d"] for k, c in zip(keys(comps), comps)}
    switch = Switch(case["err"])
    veh, twin = build(case, comps, switch), build(case, comps, None)
    state = "new"
    failures = 0

    def compare_meshes(what):
        for i, (a, b) in enumerate(zip(veh.components, twin.components)):
            m, want = mesh_of(a), mesh_of(b)
            close(m, want, 1e-6 * (1 + np.abs(want).max()), f"{what}: mesh of component {i} after {case['ops']}")

    def check_results(what):
        """Results kept, if any, belong to the current geometry."""
        r = veh.analysis_results
        if r is not None:
            vol = sum(signed_volume(mesh_of(c)) for c in veh.components)
            m = np.concatenate([mesh_of(c) for c in veh.components])
            lim = 1e-4 * (1 + np.abs(m).max()) ** 3
            close(r["volume"], vol, lim, f"{what}: volume kept against the current mesh after {case['ops']}")
            cog = veh.analyse(dens)[2]
            if vol > 0.02:
                close(r["cog"], cog, 1e-3 * (1 + np.abs(m).max()), f"{what}: centre kept against the current geometry after {case['ops']}")

    with own_directory():
        for i, (k, *a) in enumerate(case["ops"] + [["off"], ["results"], ["generate"], ["mesh", 0], ["stl"], ["results"]]):
            if k in ("on", "off"):
                switch.on = k == "on"
            elif k == "generate":
                ok, _ = attempt(veh.generate)
                if ok:
                    twin.generate()
                    state = "ok"
                else:
                    failures += 1
                    ctx.label("generation failed" + (" again" if state != "new" else ""))
                    # with an analysis, the geometry may be complete all the same
                    state = "either" if case["auto"] else "failed"
            elif k == "transform":
                if state in ("new", "failed", "either"):
                    try:
                        veh.transform([build_motion(a[0])])
                    except Exception:
                        continue
                    if state == "either":
                        continue
                    require(False, f"a vehicle that is {'not generated' if state == 'new' else 'not generated completely'} was transformed")
                ok, _ = attempt(lambda: veh.transform([build_motion(a[0])]))
                if ok:
                    twin.transform([build_motion(a[0])])
                else:
                    failures += 1
                    ctx.label("results after transforming failed")
                    # moved or not, the results must agree with the geometry
                    state = "unsure"
            elif k == "mesh":
                if state != "ok":
                    continue
                j = a[0] % len(comps)
                ok, m = attempt(lambda: mesh_of(veh.components[j]))
                if ok:
                    want = mesh_of(twin.components[j])
                    close(m, want, 1e-6 * (1 + np.abs(want).max()), f"mesh of component {j} in step {i} of {case['ops']}")
                else:
                    failures += 1
            elif k == "analyse":
                if state != "ok":
                    continue
                ok, r = attempt(lambda: veh.analyse(dens))
                if ok:
                    want = twin.analyse(dens)
                    close(r[0], want[0], 1e-4 * (1 + abs(want[0])), f"volume in step {i}")
                else:
                    failures += 1
            elif k == "stl":
                if state != "ok":
                    continue
                ok, _ = attempt(lambda: veh.to_stl(prefix="out"))
                if ok:
                    compare_meshes(f"step {i}")
                    for j, t in enumerate(twin.components):
                        close(read_stl(f"out-part{j}.stl"), mesh_of(t), 1e-6 * (1 + np.abs(mesh_of(t)).max()), f"file of component {j} in step {i}")
                else:
                    failures += 1
            elif k == "results" and state in ("ok", "unsure", "either"):
                check_results(f"step {i}")
        require(state == "ok", "generating after the cause was removed")
        compare_meshes("at the end")
    if not failures:
        ctx.skip("nothing failed")


# --------------------------------------------------------------------- studies


@st.composite
def study_case(draw):
    names = ["a", "b", "c"][: draw(st.integers(1, 3))]
    return {
        "P": [[n, draw(num(0.5, 3))] for n in names],
        "w": [draw(vec(1)) for _ in names],
        "body": draw(body()),
        "fail": draw(st.sampled_from(names + ["nominal"])),
        "late": draw(st.booleans()),
        "first": draw(st.booleans()),
        "err": draw(error()),
        "pert": draw(st.sampled_from([1, 5, 10])),
    }


def study(case, ctx):
    """A study that failed, repeated once the cause is gone."""
    from hypervehicle import Vehicle
    from hypervehicle.generator import Generator
    from hypervehicle.utilities import SensitivityStudy

    nominal = dict(map(tuple, case["P"]))
    switch = Switch(case["err"])

    class Made(Generator):
        def create_instance(self):
            moved = [n for n in nominal if getattr(self, n) != nominal[n]]
            here = moved == [case["fail"]] or (not moved and case["fail"] == "nominal")
            if not case["late"]:
                switch.check(here)
            veh = Vehicle()
            veh.configure(name="veh", verbosity=0)
            v = sum(getattr(self, n) * np.array(w) for n, w in zip(nominal, case["w"]))

            def f(x, y, z):
                switch.check(here and case["late"])
                return V(v)

            veh.add_component(build_component(case["body"]), name="part", modifier_function=f)
            return veh

    def run(s):
        return s.dvdp(dict(nominal), perturbation=case["pert"], write_nominal_stl=False)

    def same(x, y, what):
        require(sorted(x) == sorted(y), f"{what}: {sorted(x)} instead of {sorted(y)}")
        for n in y:
            for part in y[n]:
                require(part in x[n], f"{what}: no sensitivities to {n} of {part}")
                require(list(x[n][part].columns) == list(y[n][part].columns), f"{what}: columns of {n}")
                close(x[n][part].to_numpy(float), y[n][part].to_numpy(float), 1e-9, f"{what}: sensitivities to {n} of {part}")

    fresh = SensitivityStudy(Made, verbosity=0)
    want = run(fresh)
    s = SensitivityStudy(Made, verbosity=0)
    if case["first"]:
        run(s)
    switch.on = True
    ok, _ = attempt(lambda: run(s))
    require(not ok, f"a study whose vehicle fails for {case['fail']} returned a result")
    kept = s.parameter_sensitivities
    if kept:
        same(kept, want, "sensitivities kept by a study that failed")
    if not case["first"]:
        with own_directory():
            try:
                s.to_csv()
            except Exception:
                pass
            else:
                left = sorted(f for _, _, fs in os.walk(".") for f in fs)
                require(not left, f"a study that failed was written to {left}")
    switch.on = False
    same(run(s), want, "study repeated after a failure")
    same(s.parameter_sensitivities, want, "study kept after a failure")
    for part, d in tables_of(fresh).items():
        close(tables_of(s)[part].to_numpy(float), d.to_numpy(float), 1e-9, f"combined table of {part} after a failure")
    ctx.label("late" if case["late"] else "early")
    ctx.label("nominal" if case["fail"] == "nominal" else "perturbed")


FACETS = [
    Facet("component", comp_case, component, 80, rule="a failure, and a mesh after it"),
    Facet("component2", comp_case, component, 80, rule="a failure, and a mesh after it"),
    Facet("workers", lambda: comp_case(kinds=("cube", "revolved"), most=5), workers, 6, thorough=40, rule="a failure, and a mesh after it"),
    Facet("vehicle", vehicle_case, vehicle, 60, rule="something failed"),
    Facet("vehicle2", vehicle_case, vehicle, 60, rule="something failed"),
    Facet("results", lambda: vehicle_case(results=True), vehicle, 40, rule="something failed"),
    Facet("study", study_case, study, 12, rule="every case"),
]
ASSUMPTIONS = ["failures are exceptions raised by functions, curves and generators of the user"]
