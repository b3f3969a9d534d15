"""C16: a composite component is the union of its children, each with its own options."""

import numpy as np
from hypothesis import strategies as st

from hv.checks.c02 import tessellate
from hv.comp import (
    build_component,
    build_options,
    build_vehicle,
    composite_spec,
    fresh_patches,
    mesh_of,
    option_spec,
    ref_point_map,
)
from hv.core import Facet
from hv.gen import build_motion, grid_params, motion_spec, ref_motion, xyz
from hv.oracle import close, must_raise, require

CHEAP = ("cube", "sphere", "revolved", "swept", "ogive")


def children_at(s, at):
    """Expected points of all patches: child by child, copy by copy."""
    out = []
    for ch in s["children"]:
        base = [[xyz(p(*a)) for a in at] for p in fresh_patches(ch["c"])]
        for f in ref_point_map(ch.get("o", {})):
            out += [[f(p) for p in q] for q in base]
    return out


def points(c, at):
    return [[xyz(p(*a)) for a in at] for p in c.patches.values()]


@st.composite
def union_case(draw, kinds=CHEAP, n=(1, 4)):
    s = draw(composite_spec(small=False, n=n, kinds=kinds))
    if len(s["children"]) > 1 and draw(st.booleans()):
        # the same part again, with options of its own
        s["children"].append({"c": s["children"][0]["c"], "o": draw(option_spec(modifier=False, rich=True))})
    for ch in s["children"]:
        if draw(st.integers(0, 1)) == 0:
            ch["c"] = {**ch["c"], "name": draw(st.sampled_from(["block", "part", "0"]))}
        if draw(st.integers(0, 1)) == 0:
            ch["o"] = draw(option_spec(modifier=False, rich=True))
    return {"s": s, "at": draw(grid_params(3))}


def union(case, ctx):
    s = case["s"]
    c = build_component(s)
    c.generate_patches()
    want, got = children_at(s, case["at"]), points(c, case["at"])
    kinds = [ch["c"]["k"] for ch in s["children"]]
    require(len(got) == len(want), f"{len(got)} patches instead of {len(want)} for children {kinds}")
    close(got, want, 1e-8 * (1 + np.abs(want).max()), f"composite of {kinds}")
    c.generate_patches()
    close(points(c, case["at"]), want, 1e-8 * (1 + np.abs(want).max()), f"composite of {kinds} generated again")
    for ch in s["children"]:
        for k in ch.get("o", {}):
            ctx.label(k if k != "append" else f"append {ch['o']['append']}")
    names = [ch["c"]["name"] for ch in s["children"] if "name" in ch["c"]]
    if len(set(names)) < len(names):
        ctx.label("same name twice")
    if len(set(kinds)) < len(kinds):
        ctx.label("same type twice")
    for k in set(kinds):
        ctx.label("child " + k)
    if len(kinds) < 2:
        ctx.skip("one child")


# ------------------------------------------------------------------------- mesh


@st.composite
def mesh_case(draw, kinds=CHEAP):
    s = draw(composite_spec(small=False, n=(1, 3), kinds=kinds))
    s["res"] = draw(st.integers(1, 4))
    return {"s": s}


def meshed(case, ctx):
    """All of it is meshed at the composite's own resolution."""
    s = case["s"]
    c = build_component(s)
    c.generate_patches()
    n = s["res"]
    g = [i / n for i in range(n + 1)]
    want = []
    for ch in s["children"]:
        base = fresh_patches(ch["c"])
        for f in ref_point_map(ch.get("o", {})):
            want += [tessellate(lambda r, t, p=p: f(xyz(p(r, t))), g, g) for p in base]
    want = np.concatenate(want)
    close(mesh_of(c), want, 3e-6 * (1 + np.abs(want).max()), f"mesh of a composite at resolution {n}")
    if all(ch["c"]["res"] == n for ch in s["children"]):
        ctx.skip("children have the same resolution")


# ---------------------------------------------------------- options of the whole


@st.composite
def whole_case(draw):
    s = draw(composite_spec(n=(2, 3)))
    return {
        "v": {"comps": [{"c": s, "o": draw(option_spec(rich=True))}]},
        "move": draw(st.lists(motion_spec(), min_size=1, max_size=2)),
        "own": draw(st.booleans()),
        "at": draw(grid_params(2)),
    }


def whole(case, ctx):
    """Options and motions of the composite act on every child, once."""
    o = case["v"]["comps"][0]["o"]
    s = case["v"]["comps"][0]["c"]
    base = children_at(s, case["at"])
    if case["own"]:
        c = build_component(s)
        c.generate_patches()
        maps = [lambda p: p]
        for m in case["move"]:
            f, *args = build_motion(m)
            getattr(c, f)(*args)
    else:
        veh = build_vehicle(case["v"])
        veh.generate()
        veh.transform([build_motion(m) for m in case["move"]])
        c = veh.components[0]
        maps = ref_point_map(o)
        for k in o:
            ctx.label(k)
    want = []
    for f in maps:
        for q in base:
            pts = [f(p) for p in q]
            for m in case["move"]:
                pts = [ref_motion(m)(p) for p in pts]
            want.append(pts)
    got = points(c, case["at"])
    require(len(got) == len(want), f"{len(got)} patches instead of {len(want)}")
    close(got, want, 1e-8 * (1 + np.abs(want).max()), "composite with options and motions")
    ctx.label("direct" if case["own"] else "in a vehicle")


# ------------------------------------------------------------------- rejections


@st.composite
def reject_case(draw):
    return {"s": draw(composite_spec(n=(1, 2))), "bad": draw(st.sampled_from(["composite", "unknown", "nothing"])), "at": draw(grid_params(2)), "first": draw(st.booleans())}


def rejected(case, ctx):
    from hypervehicle.components import CompositeComponent
    from hypervehicle.components.component import Component

    class Strange(Component):
        componenttype = "strange"

        def generate_patches(self):
            pass

    c = build_component(case["s"])
    bad = {
        "composite": lambda: build_component(case["s"]),
        "unknown": lambda: Strange(),
        "nothing": lambda: None,
    }[case["bad"]]()
    must_raise(lambda: c.add_component(bad), f"adding a {case['bad']} child")
    # and the composite is as it was
    c.generate_patches()
    want = children_at(case["s"], case["at"])
    close(points(c, case["at"]), want, 1e-8 * (1 + np.abs(want).max()), "composite after a rejected child")
    empty = CompositeComponent(verbosity=0)
    must_raise(lambda: (empty.generate_patches(), empty.surface()), "meshing an empty composite")
    ctx.label(case["bad"])


# ------------------------------------------------------- children added in steps


@st.composite
def grow_case(draw):
    return {"s": draw(composite_spec(n=(2, 4))), "at": draw(grid_params(2)), "vehicle": draw(st.booleans())}


def grow(case, ctx):
    """Children added after a first generation join the others."""
    s = case["s"]
    c = build_component({**s, "children": s["children"][:1]})
    generate = c.generate_patches
    if case["vehicle"]:
        from hypervehicle import Vehicle

        v = Vehicle()
        v.configure(name="veh", verbosity=0)
        v.add_component(c)
        generate = v.generate
        ctx.label("in a vehicle")
    for k in range(1, len(s["children"]) + 1):
        generate()
        want = children_at({**s, "children": s["children"][:k]}, case["at"])
        got = points(c, case["at"])
        require(len(got) == len(want), f"{len(got)} patches instead of {len(want)} with {k} children")
        close(got, want, 1e-8 * (1 + np.abs(want).max()), f"composite with {k} children")
        if k < len(s["children"]):
            ch = s["children"][k]
            c.add_component(build_component(ch["c"]), **build_options(ch.get("o", {})))


FACETS = [
    Facet("union", union_case, union, 120, rule="more than one child"),
    Facet("union2", union_case, union, 120, rule="more than one child"),
    Facet("many", lambda: union_case(kinds=("cube", "revolved", "swept"), n=(8, 14)), union, 20, rule="more than one child"),
    Facet("wingfin", lambda: union_case(kinds=("fin", "wing", "cube"), n=(1, 2)), union, 12, rule="more than one child"),
    Facet("mesh", mesh_case, meshed, 50, rule="a child has another resolution"),
    Facet("whole", whole_case, whole, 80, rule="every case"),
    Facet("rejected", reject_case, rejected, 40, rule="every case"),
    Facet("grow", grow_case, grow, 40, rule="every case"),
]
