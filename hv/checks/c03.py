"""C03: vehicle generation applies every component option once, in a fixed order."""

import numpy as np
from hypothesis import strategies as st

from hv.comp import build_component, build_options, build_vehicle, fresh_patches, ref_vehicle_maps, vehicle_spec
from hv.core import Facet
from hv.gen import build_motion, grid_params, motion_spec, xyz
from hv.oracle import close, require

CHEAP = ("revolved", "ogive", "swept", "composite")


def expected(v, i, at, base=None):
    if base is None:
        base = [[xyz(p(*a)) for a in at] for p in fresh_patches(v["comps"][i]["c"])]
    return [[f(p) for p in q] for f in ref_vehicle_maps(v, i) for q in base]


def compare(veh, v, at, what=""):
    for i, c in enumerate(veh.components):
        want = expected(v, i, at)
        got = [[xyz(p(*a)) for a in at] for p in c.patches.values()]
        name = f"{what}component {i} ({v['comps'][i]['c']['k']}, options {sorted(v['comps'][i]['o'])})"
        require(len(got) == len(want), f"{name}: {len(got)} patches instead of {len(want)}")
        close(got, want, 1e-8 * (1 + np.abs(want).max()), name)


def composed(v):
    """Options whose order matters, at most, over the components."""
    return max(len(set(c["o"]) & {"mod", "curv", "reflect", "tr"}) for c in v["comps"]) + ("angle" in v) + ("vt" in v)


@st.composite
def order_case(draw, kinds=CHEAP, n=(1, 3)):
    return {"v": draw(vehicle_spec(kinds=kinds, n=n, rich=True)), "at": draw(grid_params(2))}


def order(case, ctx):
    v = case["v"]
    veh = build_vehicle(v)
    veh.generate()
    require(len(veh.components) == len(v["comps"]), "number of components")
    compare(veh, v, case["at"])
    for c in v["comps"]:
        ctx.label(c["c"]["k"])
        for k in sorted(c["o"]):
            ctx.label(k if k != "append" else f"append {c['o']['append']}")
    for k in ("angle", "vt"):
        if k in v:
            ctx.label(k)
    if composed(v) < 2:
        ctx.skip("fewer than two options act together")


# ------------------------------------------------------- vehicle transformations


@st.composite
def acc_case(draw):
    v = draw(vehicle_spec(kinds=("revolved", "swept"), n=(1, 2), motions=False))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        ms = draw(st.lists(motion_spec(), min_size=1, max_size=2))
        calls.append({"m": ms, "tuple": len(ms) == 1 and draw(st.booleans()), "after": draw(st.booleans())})
    return {"v": v, "calls": calls, "at": draw(grid_params(2))}


def accumulate(case, ctx):
    """Transformations accumulate over calls, given as tuple or list, before
    or after a first generation."""
    v = case["v"]
    veh = build_vehicle(v)
    first = [c for c in case["calls"] if not c["after"]]
    later = [c for c in case["calls"] if c["after"]]

    def give(calls):
        for c in calls:
            ms = [build_motion(m) for m in c["m"]]
            n = len(ms)
            veh.add_vehicle_transformations(ms[0] if c["tuple"] else ms)
            require(len(ms) == n, "the list of transformations passed in changed length")

    give(first)
    veh.generate()
    compare(veh, {**v, "vt": [m for c in first for m in c["m"]]}, case["at"], "first generation: ")
    give(later)
    veh.generate()
    compare(veh, {**v, "vt": [m for c in first + later for m in c["m"]]}, case["at"], "second generation: ")
    ctx.label(f"{len(case['calls'])} calls")
    if any(c["tuple"] for c in case["calls"]):
        ctx.label("tuple")
    if len(case["calls"]) < 2:
        ctx.skip("one call")


# --------------------------------------------------------------- other components


@st.composite
def alone_case(draw):
    v = draw(vehicle_spec(kinds=("revolved", "ogive", "swept"), n=(2, 4), rich=True))
    return {"v": v, "order": draw(st.permutations(range(len(v["comps"])))), "at": draw(grid_params(2))}


def alone(case, ctx):
    """A component in company, added in any order, is the component alone."""
    v = case["v"]
    veh = build_vehicle({**v, "comps": [v["comps"][i] for i in case["order"]]})
    veh.generate()
    for j, i in enumerate(case["order"]):
        one = build_vehicle({**v, "comps": [v["comps"][i]]})
        one.generate()
        a, b = ([[xyz(p(*t)) for t in case["at"]] for p in w.patches.values()] for w in (veh.components[j], one.components[0]))
        close(a, b, 1e-12 * (1 + np.abs(b).max()), f"component {i} in company and alone")
    if not any(c["o"].keys() - {"name", "ghost"} for c in v["comps"]):
        ctx.skip("no options")


# ------------------------------------------------------------ components added later


@st.composite
def later_case(draw):
    return {
        "v": draw(vehicle_spec(kinds=("revolved", "ogive", "swept"), n=(2, 3), rich=True)),
        "split": draw(st.integers(1, 2)),
        "at": draw(grid_params(2)),
    }


def later(case, ctx):
    """Components added after a first generation are treated like the others."""
    v = case["v"]
    k = min(case["split"], len(v["comps"]) - 1)
    veh = build_vehicle({**v, "comps": v["comps"][:k]})
    if k:
        veh.generate()
    for c in v["comps"][k:]:
        veh.add_component(build_component(c["c"]), **build_options(c["o"]))
    veh.generate()
    compare(veh, v, case["at"])
    if k == 0:
        ctx.skip("nothing generated before")


FACETS = [
    Facet("order", order_case, order, 150, rule="at least two options act together"),
    Facet("order2", order_case, order, 150, rule="at least two options act together"),
    Facet("wingfin", lambda: order_case(kinds=("fin", "wing"), n=(1, 1)), order, 20, rule="at least two options act together"),
    Facet("accumulate", acc_case, accumulate, 100, rule="more than one call"),
    Facet("alone", alone_case, alone, 80, rule="options given"),
    Facet("later", later_case, later, 80, rule="part of the vehicle generated before"),
]
