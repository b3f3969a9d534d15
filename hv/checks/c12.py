"""C12: surface generation is deterministic and the same in parallel and in series."""

import gc
import time

import numpy as np
from hypothesis import strategies as st

from hv.checks.c02 import resolutions
from hv.comp import build_clustering, build_component, build_options, component_spec, composite_spec, option_spec
from hv.core import Facet
from hv.gen import V, angle_deg, build_motion, motion_spec, num
from hv.oracle import require


@st.composite
def case_spec(draw, kinds=("revolved", "ogive", "swept", "cube", "sphere"), most=4):
    c = {"c": draw(st.one_of(component_spec(kinds), composite_spec(n=(1, most))))}
    if draw(st.booleans()):
        c["clus"] = {ax: draw(num(0.5, 2)) for ax in "ij"}
    c["ops"] = draw(st.lists(motion_spec(), max_size=2))
    if draw(st.booleans()):
        c["mirror"] = draw(st.sampled_from("xyz"))
    if draw(st.booleans()):
        # the first patches are the last to finish
        c["slow"] = draw(st.sampled_from(["first", "last", "middle"]))
    if draw(st.integers(0, 2)) == 0:
        c["n"] = draw(st.integers(1, 3))
    return c


def prepare(case, serial=False):
    c = build_component(case["c"], serial=serial)
    c.generate_patches()
    for m in case["ops"]:
        f, *args = build_motion(m)
        getattr(c, f)(*args)
    if "mirror" in case:
        c.reflect(case["mirror"])
    if "clus" in case:
        c.add_clustering_options(**build_clustering(case["clus"]))
    return c


def slow_down(c, how):
    """Make some patches slow to evaluate through a user function."""
    from hypervehicle.geometry.geometry import OffsetPatchFunction

    keys = list(c.patches)
    pick = {"first": keys[: max(1, len(keys) // 3)], "last": keys[-1:], "middle": keys[len(keys) // 2 :][:1]}[how]

    def wait(x, y, z):
        time.sleep(0.002)
        return V([0.0, 0.0, 0.125])

    for k in pick:
        c.patches[k] = OffsetPatchFunction(c.patches[k], wait)


def cells(case, c, n):
    if "n" in case:
        return [(case["n"], case["n"])] * n
    s = case["c"]
    own = resolutions(s, n) if isinstance(s["res"], int) else resolutions(s, n // (2 if "mirror" in case else 1))
    return own * (n // len(own))


def parallel(case, ctx):
    from hypervehicle.utilities import surfce_to_stl

    a = prepare(case)
    if "slow" in case:
        slow_down(a, case["slow"])
        ctx.label("slow " + case["slow"])
    names = list(a.patches)
    kw = build_clustering(case.get("clus", {}))
    want = [
        np.array(surfce_to_stl(p, nr, ns, **kw).vectors)
        for p, (nr, ns) in zip(a.patches.values(), cells(case, a, len(names)))
    ]
    for k in range(2):
        a.surface(resolution=case.get("n"))
        require(list(a.surfaces) == names, f"surfaces {list(a.surfaces)} in place of patches {names}")
        for key, w in zip(names, want):
            got = np.array(a.surfaces[key].vectors)
            require(got.shape == w.shape and np.array_equal(got, w), f"surface {key} made in parallel (round {k + 1}) differs from evaluating the patch")
    require(np.array_equal(np.array(a.mesh.vectors), np.concatenate(want)), "mesh is not the surfaces in the order of the patches")
    ctx.label(f"{min(len(names) // 5 * 5, 20)}+ patches")
    ctx.label(case["c"]["k"])
    # release the worker pools
    gc.collect()
    if len(names) < 2:
        ctx.skip("one patch")


def serial(case, ctx):
    """The same component surfaced with and without worker processes."""
    a, b = prepare(case), prepare(case, serial=True)
    for c in (a, b):
        c.surface(resolution=case.get("n"))
    require(list(a.surfaces) == list(b.surfaces), "order of surfaces in parallel and in series")
    for k in a.surfaces:
        require(np.array_equal(np.array(a.surfaces[k].vectors), np.array(b.surfaces[k].vectors)), f"surface {k} in parallel and in series")
    require(np.array_equal(np.array(a.mesh.vectors), np.array(b.mesh.vectors)), "mesh in parallel and in series")
    gc.collect()
    ctx.label(case["c"]["k"])


# ------------------------------------------------------------------- vehicles


@st.composite
def vehicle_case(draw):
    comps = [
        {"c": draw(component_spec(("revolved", "ogive", "swept"))), "o": draw(option_spec())}
        for _ in range(draw(st.integers(1, 3)))
    ]
    return {"comps": comps, "angle": draw(angle_deg(-90, 90))}


def vehicle(case, ctx):
    """Whole vehicles made twice from one definition with workers, and once
    without, are bit for bit the same."""
    from hypervehicle import Vehicle

    out = []
    for s in (False, False, True):
        veh = Vehicle()
        veh.configure(verbosity=0)
        veh.vehicle_angle_offset = case["angle"]
        for c in case["comps"]:
            veh.add_component(build_component(c["c"], serial=s), **build_options(c["o"]))
        veh.generate()
        out.append([np.array(c.mesh.vectors) for c in veh.components])
        del veh
        gc.collect()
    for i, (a, b, c) in enumerate(zip(*out)):
        require(np.array_equal(a, b), f"component {i} differs between two runs")
        require(np.array_equal(a, c), f"component {i} differs between parallel and serial")
    if not any(c["o"] for c in case["comps"]):
        ctx.skip("no options")


FACETS = [
    Facet("parallel", case_spec, parallel, 14, thorough=120, rule="more than one patch"),
    Facet("serial", case_spec, serial, 14, thorough=120, rule="every case"),
    Facet("many", lambda: case_spec(most=6), parallel, 8, thorough=80, rule="more than one patch"),
    Facet("vehicle", vehicle_case, vehicle, 10, thorough=80, rule="options given"),
    Facet("wingfin", lambda: case_spec(kinds=("fin", "wing"), most=1), serial, 4, thorough=30, rule="every case"),
]
