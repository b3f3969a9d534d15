"""C01: closed components produce watertight, consistently outward meshes."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.comp import (
    build_component,
    fin_spec,
    mesh_of,
    ogive_spec,
    polygon_spec,
    profile_spec,
    revolved_spec,
    swept_spec,
    wing_curve,
    wing_spec,
    wing_t1,
)
from hv.core import Facet, Violation
from hv.gen import num, ref_path
from hv.oracle import bad_edges, close, edge_report, require, signed_volume


def generated(s):
    c = build_component(s)
    c.generate_patches()
    return mesh_of(c)


def must_be_closed(v, what):
    bad, wrong, used = edge_report(v)
    require(used > 0, f"{what}: no usable triangle")
    require(bad == 0, f"{what}: {bad} edges not shared by exactly two triangles")
    require(wrong == 0, f"{what}: {wrong} edges not run in opposite directions")
    return used


def closed(case, ctx):
    v = generated(case)
    k = case["k"]
    must_be_closed(v, k)
    vol = signed_volume(v)
    if k in ("wing", "fin", "cube", "sphere"):
        require(vol > 0, f"{k} encloses volume {vol:.4g}")
    elif k == "ogive":
        if vol <= 0:
            ctx.known_finding("ogive-inward", f"ogive nose encloses volume {vol:.4g}")
    else:
        require(abs(vol) > 0, f"{k} encloses no volume")
    ctx.label(k)
    ctx.label(f"res {case['res'] if isinstance(case['res'], int) else 'per edge'}")
    if k == "wing":
        ctx.label("flap" if case["flap"][0] else "no flap")
    if k == "fin":
        ctx.label("rudder " + case["rudder"])


# ---------------------------------------------------- half body plus mirror


@st.composite
def half_case(draw):
    k = draw(st.sampled_from(["revolved", "swept", "swept", "revolved", "wing"]))
    if k == "wing":
        s = draw(wing_spec(closed=False, res=(1, 2)))
        axis = "y"
        s["le"] = [[p[0], p[1] - s["root"][1], p[2]] for p in s["le"]]
        s["root"][1] = 0.0
    elif k == "revolved":
        # from the axis to the plane x = 0
        line = draw(profile_spec(closed=True))
        pts = line["p"] if "p" in line else [line["s"][0]["p"][0]] + [e["p"][1] for e in line["s"]]
        pts = pts[:-1]
        shift = pts[-1][0]
        pts = [[p[0] - shift, p[1], 0.0] for p in pts]
        s = {
            "k": "revolved",
            "line": {"k": "bezier", "p": pts} if len(pts) > 2 and draw(st.booleans()) else {
                "k": "polyline",
                "s": [{"k": "line", "p": [a, b]} for a, b in zip(pts, pts[1:])],
            },
            "res": draw(st.integers(2, 4)),
        }
        axis = "x"
    else:
        s = draw(swept_spec(closed=False, res=(2, 3)))
        # first section in the plane x = 0, last one collapsed to a point
        for e in s["cs"][0]:
            for p in e["p"]:
                p[0] = 0.0
        tip = [float(np.sign(s["cs"][1][0]["p"][0][0]) or 1.0) * 3.0, 0.1, 0.2]
        n = len(s["cs"][0])
        s["cs"].append([{"k": "line", "p": [tip, tip]} for _ in range(n)])
        axis = "x"
    return {"c": s, "axis": axis}


def join_with_mirror(s, axis):
    from hypervehicle import Vehicle

    v = Vehicle()
    v.configure(verbosity=0)
    c = build_component(s)
    v.add_component(c, reflection_axis=axis)
    v.generate()
    return mesh_of(c)


def half(case, ctx):
    s = case["c"]
    alone = edge_report(generated(s))[0]
    v = join_with_mirror(s, case["axis"])
    bad, wrong, used = edge_report(v)
    require(used > 0, "no usable triangle")
    require(
        bad == 0,
        f"{s['k']} joined with its mirror image in {case['axis']}: {bad} edges "
        "not shared by exactly two triangles",
    )
    if wrong:
        ctx.known_finding("mirror-inward", f"mirror half of a {s['k']} runs inward: {wrong} edges")
    ctx.label(s["k"])
    if alone == 0:
        ctx.skip("half is closed already")


# ------------------------------------------------------- flat leading edges


@st.composite
def flat_case(draw):
    s = draw(wing_spec(closed=False, flat=True, res=(1, 3)))
    s["le"] = [[p[0], p[1] - s["root"][1], p[2]] for p in s["le"]]
    s["root"][1] = 0.0
    return s


def flat(case, ctx):
    v = join_with_mirror(case, "y")
    edges = bad_edges(v)
    t1 = wing_t1(case)
    # known: the last third of a flat leading edge starts at the first
    # discretisation point instead of the second, so the wall past it is
    # covered twice with different divisions; at the trailing corner B0 one
    # patch edge of the wall meets two of the corner patch
    f = ref_path(wing_curve(case))
    curve = np.array([f(0.0)] + [f(t) for t in np.linspace(t1, 1, 400)])
    tol = 4e-3 * case["root"][3]
    for e in edges:
        for p in e:
            q = np.array([p[0], abs(p[1])])
            d = np.sqrt(((curve[:, :2] - q) ** 2).sum(axis=1)).min()
            require(d < tol, f"flat leading edge: open edge at {p.tolist()}")
    if len(edges):
        ctx.known_finding("flat-le-overlap", f"flat leading edge wing: {len(edges)} open edges")


# ------------------------------------------------------------ known volumes


@st.composite
def volume_case(draw):
    k = draw(st.sampled_from(["sphere", "cube", "cone", "ogive", "prism"]))
    s = {"k": k, "n": draw(st.integers(5, 8))}
    if k in ("sphere", "cube"):
        s["s"] = draw(polygon_spec((k,)))
    elif k == "cone":
        s["x"] = [draw(num(-2, 2)), draw(num(0.5, 3))]
        s["r"] = [draw(num(0.3, 2)), draw(num(0.3, 2))]
    elif k == "ogive":
        s["s"] = draw(ogive_spec())
    else:
        s["b"] = [draw(num(0.5, 2)), draw(num(0.5, 2))]
        s["f"] = [draw(num(0.3, 2)) for _ in range(draw(st.integers(2, 4)))]
        s["h"] = draw(num(0.5, 2))
    return s


def analytic(case):
    k = case["k"]
    if k == "sphere":
        return 4 / 3 * math.pi * case["s"]["r"] ** 3
    if k == "cube":
        return (2 * case["s"]["r"]) ** 3
    if k == "cone":
        (_, h), (a, b) = case["x"], case["r"]
        return math.pi * h / 3 * (a * a + a * b + b * b)
    if k == "ogive":
        h, rn, ro, lo = (case["s"][n] for n in ("h", "rn", "ro", "lo"))
        xo = math.sqrt((ro - rn) ** 2 - (ro - h) ** 2)
        yt = rn * (ro - h) / (ro - rn)
        xt = xo + math.sqrt(rn**2 - yt**2)
        x = np.linspace(0, xt, 4001)
        og = np.trapezoid((np.sqrt(ro**2 - x**2) - (ro - h)) ** 2, x)
        x = np.linspace(xt, xo + rn, 4001)
        cap = np.trapezoid(np.maximum(rn**2 - (x - xo) ** 2, 0), x)
        return math.pi * (og + cap + h * h * lo)
    b, f, h = case["b"], case["f"], case["h"]
    return sum(b[0] * b[1] * h / 3 * (p * p + p * q + q * q) for p, q in zip(f, f[1:]))


def volume_spec(case, n):
    k = case["k"]
    if k in ("sphere", "cube", "ogive"):
        return dict(case["s"], res=n)
    if k == "cone":
        (x, h), (a, b) = case["x"], case["r"]
        p = [[x, 0, 0], [x, a, 0], [x + h, b, 0], [x + h, 0, 0]]
        return {
            "k": "revolved",
            "line": {"k": "polyline", "s": [{"k": "line", "p": [u, v]} for u, v in zip(p, p[1:])]},
            "res": n,
        }
    loops = []
    for i, f in enumerate(case["f"]):
        y, z, x = case["b"][0] * f / 2, case["b"][1] * f / 2, i * case["h"]
        p = [[x, -y, -z], [x, y, -z], [x, y, z], [x, -y, z]]
        loops.append([{"k": "line", "p": [p[j], p[(j + 1) % 4]]} for j in range(4)])
    return {"k": "swept", "cs": loops, "close": True, "res": n * (len(case["f"]) - 1)}


def volume(case, ctx):
    want = analytic(case)
    err = []
    for n in (case["n"], 2 * case["n"]):
        v = generated(volume_spec(case, n))
        err.append(abs(abs(signed_volume(v)) / want - 1))
    k = case["k"]
    ctx.label(k)
    if k in ("cube", "prism"):
        bound = [1e-5, 1e-5]
    else:
        # chords of smooth bodies: second order; profiles with corners between
        # grid lines: first order
        c = {"sphere": 2.0, "cone": 0.0, "ogive": 0.0}[k]
        bound = [c / n**2 if c else 3.0 / n for n in (case["n"], 2 * case["n"])]
    for e, b in zip(err, bound):
        require(e <= b, f"volume of {k}: relative error {e:.3g} exceeds {b:.3g}; errors {err}")


FACETS = [
    Facet("wing", lambda: wing_spec(closed=True, res=(1, 2)), closed, 20, rule="every case"),
    Facet("fin", lambda: fin_spec(res=(1, 2)), closed, 20, rule="every case"),
    Facet("revolved", lambda: revolved_spec(res=(2, 6)), closed, 150, rule="every case"),
    Facet("ogive", lambda: ogive_spec(res=(2, 8)), closed, 100, rule="every case"),
    Facet("swept", lambda: swept_spec(closed=True, res=(1, 6)), closed, 150, rule="every case"),
    Facet("polygon", lambda: polygon_spec(res=(1, 8)), closed, 100, rule="every case"),
    Facet("half", half_case, half, 40, rule="the half alone has open edges"),
    Facet("flat", flat_case, flat, 30, rule="every case"),
    Facet("volume", volume_case, volume, 30, rule="every case"),
]
