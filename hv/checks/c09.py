"""C09: rotations, translations and reflections are exact rigid motions."""

import numpy as np
from hypothesis import strategies as st

from hv.comp import (
    build_component,
    build_vehicle,
    component_spec,
    fresh_patches,
    mesh_of,
    ref_vehicle_maps,
    vehicle_spec,
)
from hv.core import Facet
from hv.gen import V, angle_deg, axis_rot, build_field, build_motion, field_spec, grid_params, motion_spec, ref_field, ref_motion, vec, xyz
from hv.oracle import area, close, require, signed_volume

CHEAP = ("revolved", "ogive", "swept", "cube", "sphere")
ALL = CHEAP + ("fin", "wing")


@st.composite
def op_spec(draw, rigid=False, reflect=True):
    k = draw(st.integers(0, 7))
    if k <= 2:
        return {"op": "rotate", "deg": draw(angle_deg(-400, 400)), "axis": draw(st.sampled_from("xyzXYZ")) if k else None}
    if k <= 4 or (k == 5 and rigid):
        return {"op": "translate", "v": draw(vec(5))}
    if k == 5:
        return {"op": "translate", "f": draw(field_spec(0.5))}
    if not reflect:
        return {"op": "rotate", "deg": draw(angle_deg(-400, 400)), "axis": draw(st.sampled_from("xyz"))}
    return {"op": "reflect", "axis": draw(st.sampled_from("xyzXYZ"))}


def apply_op(c, o):
    if o["op"] == "rotate":
        if o["axis"] is None:
            c.rotate(o["deg"])  # about y unless stated
        else:
            c.rotate(angle=o["deg"], axis=o["axis"])
    elif o["op"] == "translate":
        c.translate(V(o["v"]) if "v" in o else build_field(o["f"]))
    else:
        c.reflect(o["axis"])


def ref_op(o):
    if o["op"] == "rotate":
        m = axis_rot((o["axis"] or "y").lower(), o["deg"])
        return lambda p: m @ p
    if o["op"] == "translate":
        if "f" in o:
            f = ref_field(o["f"])
            return lambda p: p + f(p)
        v = np.array(o["v"], float)
        return lambda p: p + v
    d = np.ones(3)
    d["xyz".index(o["axis"].lower())] = -1
    return lambda p: d * p


@st.composite
def seq_case(draw, kinds=CHEAP, most=5):
    ops, n = [], 0
    for _ in range(draw(st.integers(1, most))):
        o = draw(op_spec(reflect=n < 2))
        n += o["op"] == "reflect"
        ops.append(o)
    return {"c": draw(component_spec(kinds)), "ops": ops, "at": draw(grid_params(3))}


def sequence(case, ctx):
    """Patches after a sequence of motions against independent maps."""
    c = build_component(case["c"])
    c.generate_patches()
    want = [[xyz(p(*a)) for a in case["at"]] for p in fresh_patches(case["c"])]
    for o in case["ops"]:
        apply_op(c, o)
        f = ref_op(o)
        new = [[f(p) for p in q] for q in want]
        # a reflection keeps the original and appends the image
        want = want + new if o["op"] == "reflect" else new
        ctx.label(o["op"] + (" by function" if "f" in o else ""))
    got = [[xyz(p(*a)) for a in case["at"]] for p in c.patches.values()]
    require(len(got) == len(want), f"{len(got)} patches instead of {len(want)} after {[o['op'] for o in case['ops']]}")
    scale = 1 + np.abs(want).max()
    close(got, want, 1e-9 * scale, f"{case['c']['k']} after {case['ops']}")
    ctx.label(case["c"]["k"])
    if len(case["ops"]) < 2:
        ctx.skip("single motion")


# ------------------------------------------------------------ mesh invariants


@st.composite
def inv_case(draw, kinds=CHEAP):
    ops = [draw(op_spec(rigid=True, reflect=False)) for _ in range(draw(st.integers(1, 4)))]
    return {"c": draw(component_spec(kinds)), "ops": ops}


def inverse(o):
    if o["op"] == "rotate":
        return {**o, "deg": -o["deg"]}
    return {**o, "v": [-x for x in o["v"]]}


def distances(v):
    p = v.reshape(-1, 3)
    p = p[:: max(1, len(p) // 12)]
    return np.linalg.norm(p[:, None] - p[None], axis=2)


def invariants(case, ctx):
    c = build_component(case["c"])
    c.generate_patches()
    before = mesh_of(c)
    for o in case["ops"]:
        apply_op(c, o)
    after = mesh_of(c)
    scale = 1 + max(np.abs(before).max(), np.abs(after).max())
    for o in case["ops"]:
        scale += np.abs(o.get("v", 0)).max()
    want = before
    for o in case["ops"]:
        f = ref_op(o)
        want = np.apply_along_axis(f, 2, want)
    close(after, want, 3e-6 * scale, "mesh after rigid motions")
    close(distances(after), distances(before), 5e-6 * scale, "distances between mesh vertices")
    close(area(after), area(before), 2e-5 * scale**2, "area after rigid motions")
    close(signed_volume(after), signed_volume(before), 1e-4 * scale**3, "volume after rigid motions")
    for o in reversed(case["ops"]):
        apply_op(c, inverse(o))
    close(mesh_of(c), before, 5e-6 * scale, "mesh after the inverse motions")
    ctx.label(case["c"]["k"])
    if np.abs(after - before).max() < 1e-3:
        ctx.skip("nothing moved")


@st.composite
def add_case(draw):
    n = draw(st.integers(2, 4))
    return {
        "c": draw(component_spec(CHEAP)),
        "axis": draw(st.sampled_from("xyz")),
        "deg": [draw(angle_deg(-360, 360)) for _ in range(n)],
        "at": draw(grid_params(3)),
    }


def rotations_add(case, ctx):
    """Rotations about one axis add, whole turns do nothing, and a coordinate
    along the axis is kept."""
    a, b, d = (build_component(case["c"]) for _ in range(3))
    for c in (a, b, d):
        c.generate_patches()
    for x in case["deg"]:
        a.rotate(x, case["axis"])
    b.rotate(sum(case["deg"]), case["axis"])
    pa, pb, pd = ([[xyz(p(*t)) for t in case["at"]] for p in c.patches.values()] for c in (a, b, d))
    scale = 1 + np.abs(pd).max()
    close(pa, pb, 1e-9 * scale, f"rotations {case['deg']} about {case['axis']} one by one and at once")
    i = "xyz".index(case["axis"])
    close(np.array(pa)[..., i], np.array(pd)[..., i], 1e-9 * scale, f"coordinate along the {case['axis']} axis")
    d.rotate(360.0, case["axis"])
    close([[xyz(p(*t)) for t in case["at"]] for p in d.patches.values()], pd, 1e-9 * scale, "whole turn")
    if abs(sum(case["deg"])) < 1:
        ctx.skip("returns")


@st.composite
def axes_case(draw):
    kinds = draw(st.permutations(["fin", "wing", "wing", "swept"]))[:3]
    out = []
    for k in kinds:
        if k == "wing":
            c = draw(component_spec(("wing",), closed=True))
        else:
            c = draw(component_spec((k,)))
        out.append({"c": c, "deg": [draw(angle_deg(-180, 180)) for _ in range(2)]})
    return {"parts": out, "axes": list(draw(st.permutations("xyz"))), "at": draw(grid_params(2))}


def axes(case, ctx):
    """Every axis as the first one, and then another one."""
    for s in case["parts"]:
        base = [[xyz(p(*a)) for a in case["at"]] for p in fresh_patches(s["c"])]
        scale = 1 + np.abs(base).max()
        for i, first in enumerate(case["axes"]):
            c = build_component(s["c"])
            c.generate_patches()
            want = base
            for deg, axis in zip(s["deg"], (first, case["axes"][i - 1])):
                c.rotate(deg, axis)
                m = axis_rot(axis, deg)
                want = [[m @ p for p in q] for q in want]
                got = [[xyz(p(*a)) for a in case["at"]] for p in c.patches.values()]
                close(got, want, 1e-9 * scale, f"{s['c']['k']} turned by {s['deg']} about {first} and {case['axes'][i - 1]}")
        ctx.label(s["c"]["k"])
        if not any(s["deg"]):
            ctx.skip("not turned")


# ------------------------------------------------------------------ vehicles


@st.composite
def vehicle_case(draw, kinds=("revolved", "ogive", "swept", "composite")):
    return {
        "v": draw(vehicle_spec(kinds=kinds, n=(2, 3))),
        "calls": [
            draw(st.lists(st.one_of(motion_spec(), st.just({"m": "cart3d"})), min_size=1, max_size=3))
            for _ in range(draw(st.integers(1, 3)))
        ],
        "at": draw(grid_params(2)),
    }


def vehicle(case, ctx):
    """Vehicle.transform moves every patch of every component once."""
    from hypervehicle import transformations

    veh = build_vehicle(case["v"])
    veh.generate()
    post = []
    for call in case["calls"]:
        ms = []
        for m in call:
            if m["m"] == "cart3d":
                ms += transformations.CART3D
                post += [ref_motion({"m": "rotate", "deg": 180, "axis": "z"}), ref_motion({"m": "rotate", "deg": 90, "axis": "x"})]
                ctx.label("cart3d")
            else:
                ms.append(build_motion(m))
                post.append(ref_motion(m))
        # a single transformation may be given without a list
        veh.transform(ms[0] if len(ms) == 1 else ms)
    for i, c in enumerate(veh.components):
        spec = case["v"]["comps"][i]
        base = [[xyz(p(*a)) for a in case["at"]] for p in fresh_patches(spec["c"])]
        want = []
        for f in ref_vehicle_maps(case["v"], i):
            for q in base:
                pts = [f(p) for p in q]
                for h in post:
                    pts = [h(p) for p in pts]
                want.append(pts)
        got = [[xyz(p(*a)) for a in case["at"]] for p in c.patches.values()]
        require(len(got) == len(want), f"component {i}: {len(got)} patches instead of {len(want)}")
        close(got, want, 1e-8 * (1 + np.abs(want).max()), f"component {i} ({spec['c']['k']}) after vehicle.transform")
        ctx.label(spec["c"]["k"])
    if len(veh.components) < 2:
        ctx.skip("one component")


FACETS = [
    Facet("sequence", seq_case, sequence, 200, rule="at least two motions"),
    Facet("wingfin", lambda: seq_case(kinds=("fin", "wing"), most=3), sequence, 15, rule="at least two motions"),
    Facet("axes", axes_case, axes, 6, rule="angles not zero"),
    Facet("invariants", inv_case, invariants, 100, rule="the mesh moved"),
    Facet("fin", lambda: inv_case(kinds=("fin", "wing")), invariants, 4, rule="the mesh moved"),
    Facet("add", add_case, rotations_add, 120, rule="angles do not cancel"),
    Facet("vehicle", vehicle_case, vehicle, 60, rule="at least two components"),
]
