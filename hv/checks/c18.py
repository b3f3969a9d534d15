"""C18: four-sided patches interpolate all four boundary curves."""

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import V, build_path, edges_spec, grid_params, param, ref_coons, ref_path, step, vec, xyz
from hv.oracle import close, must_raise

NAMES = ("south", "east", "north", "west")


@st.composite
def patch_case(draw):
    return {"e": draw(edges_spec(("line", "bezier", "polyline"))), "q": draw(grid_params(4))}


def make(e, **kw):
    from hypervehicle.geometry.surface import CoonsPatch

    return CoonsPatch(**{n: build_path(e[n]) for n in NAMES}, **kw)


def sides(patch, e, tol, shift=0.0):
    for t in (0.0, 0.3, 0.5, 0.9, 1.0):
        for n, rs in (
            ("south", (t, 0.0)),
            ("north", (t, 1.0)),
            ("west", (0.0, t)),
            ("east", (1.0, t)),
        ):
            close(xyz(patch(*rs)), ref_path(e[n])(t) + shift, tol, f"{n} side at {t}")


def patch_(case, ctx):
    e = case["e"]
    p = make(e)
    ref = ref_coons(e)
    sides(p, e, 1e-7)
    for r, s in case["q"]:
        close(xyz(p(r, s)), ref(r, s), 1e-7, f"point ({r}, {s})")
    # swapping the roles of the directions gives the transposed surface
    q = make({"south": e["west"], "north": e["east"], "west": e["south"], "east": e["north"]})
    for r, s in case["q"]:
        close(xyz(q(s, r)), xyz(p(r, s)), 1e-7, "transposed patch")
    kinds = {e[n]["k"] for n in NAMES}
    ctx.label("+".join(sorted(kinds)))
    if kinds == {"line"}:
        ctx.skip("all edges straight")


@st.composite
def corner_case(draw):
    e = draw(edges_spec(("line",)))
    return {
        "p": [e["south"]["p"][0], e["south"]["p"][1], e["north"]["p"][1], e["north"]["p"][0]],
        "q": draw(grid_params(4)),
    }


def corner(case, ctx):
    from hypervehicle.geometry.surface import CoonsPatch

    pts = [V(p) for p in case["p"]]
    patch = CoonsPatch(p00=pts[0], p10=pts[1], p11=pts[2], p01=pts[3])
    a = np.array(case["p"])

    def ref(r, s):
        return (1 - r) * (1 - s) * a[0] + r * (1 - s) * a[1] + r * s * a[2] + (1 - r) * s * a[3]

    for r, s in case["q"] + [[0, 0], [0, 1], [1, 0], [1, 1], [0.5, 0.5]]:
        close(xyz(patch(r, s)), ref(r, s), 1e-8, f"bilinear point ({r}, {s})")
    for p in pts:
        p *= 3.0
    for r, s in case["q"]:
        close(xyz(patch(r, s)), ref(r, s), 1e-8, "after changing the corner points")


@st.composite
def shift_case(draw):
    return {
        "e": draw(edges_spec()),
        "corners": draw(st.booleans()),
        "ops": draw(st.lists(st.tuples(st.sampled_from(["add", "sub"]), vec(3)).map(list), min_size=1, max_size=4)),
        "start": draw(st.one_of(st.none(), vec(2))),
        "q": draw(grid_params(2)),
    }


def shift(case, ctx):
    from hypervehicle.geometry.surface import CoonsPatch

    e = case["e"]
    kw = {} if case["start"] is None else {"offset": V(case["start"])}
    base = np.array(case["start"] or [0, 0, 0], float)
    if case["corners"]:
        c = [ref_path(e["south"])(0.0), ref_path(e["south"])(1.0), ref_path(e["north"])(1.0), ref_path(e["north"])(0.0)]
        first = CoonsPatch(p00=V(c[0]), p10=V(c[1]), p11=V(c[2]), p01=V(c[3]), **kw)
    else:
        first = make(e, **kw)
    q = case["q"] + [[0.0, 0.0], [1.0, 0.4]]
    zero = [xyz(first(r, s)) for r, s in q]
    patches, offs = [first], [np.zeros(3)]
    for op, v in case["ops"]:
        w = V(v)
        patches.append(patches[-1] + w if op == "add" else patches[-1] - w)
        offs.append(offs[-1] + np.array(v) if op == "add" else offs[-1] - np.array(v))
        close(xyz(w), v, 0, "vector after the operation")
        ctx.label(op)
    for k, (p, o) in enumerate(zip(patches, offs)):
        for (r, s), z in zip(q, zero):
            close(xyz(p(r, s)), z + o, 1e-9, f"patch after {k} displacements")
    if case["start"] is not None:
        plain = make(e) if not case["corners"] else None
        if plain:
            for (r, s), z in zip(q, zero):
                close(z, xyz(plain(r, s)) + base, 1e-9, "initial offset")
    must_raise(lambda: first + 1.0, "patch + number")
    must_raise(lambda: first - [1, 2, 3], "patch - list")


@st.composite
def later_case(draw):
    return {
        "e": draw(edges_spec(("line", "bezier"))),
        "which": draw(st.sampled_from(NAMES)),
        "how": draw(st.sampled_from(["rebind", "inplace", "returned"])),
        "v": draw(step()),
        "q": draw(grid_params(3)),
    }


def later(case, ctx):
    from hypervehicle.geometry.surface import CoonsPatch

    e = case["e"]
    paths = {n: build_path(e[n]) for n in NAMES}
    patch = CoonsPatch(**paths)
    ref = ref_coons(e)
    q = case["q"] + [[0.0, 0.0], [1.0, 1.0], [0.5, 0.25]]
    a = paths[case["which"]]
    line = e[case["which"]]["k"] == "line"
    if case["how"] == "rebind":
        if line:
            a.p0, a.p1 = V(case["v"]), V(case["v"]) * 2
        else:
            a.B[0], a.B[-1] = V(case["v"]), V(case["v"]) * 2
    elif case["how"] == "inplace":
        pts = [a.p0, a.p1] if line else a.B
        for p in pts:
            p *= 2.5
    else:
        for t in (0.0, 1.0):
            x = a(t)
            x *= 7.0
        for r, s in q:
            x = patch(r, s)
            x *= -3.0
    for r, s in q:
        close(xyz(patch(r, s)), ref(r, s), 1e-7, f"patch after later change ({case['how']})")
    ctx.label(case["how"])


@st.composite
def reject_case(draw):
    return {
        "e": draw(edges_spec(("line", "bezier"))),
        "which": draw(st.sampled_from(NAMES)),
        "end": draw(st.sampled_from([0, -1])),
        "d": draw(step(3.0, 1.0)),
        # or a small gap: a share of the coordinate along one axis
        "small": draw(st.one_of(st.none(), st.tuples(st.integers(0, 2), st.sampled_from([0.02, 0.03, 0.06, 0.2]), st.sampled_from([1, -1])).map(list))),
        "drop": draw(st.integers(0, 3)),
        "r": draw(param()),
    }


def reject(case, ctx):
    from hypervehicle.geometry.surface import CoonsPatch

    e = {n: {"k": v["k"], "p": [list(p) for p in v["p"]]} for n, v in case["e"].items()}
    # tolerance of the library is one per cent of the coordinate
    p = e[case["which"]]["p"][case["end"]]
    d = case["d"]
    if case["small"]:
        i, f, sgn = case["small"]
        d = [0.0] * 3
        d[i] = sgn * (f * abs(p[i]) + 2e-4)
        ctx.label("small gap")
    e[case["which"]]["p"][case["end"]] = [a + b for a, b in zip(p, d)]
    must_raise(lambda: make(e), f"open corner at {case['which']}[{case['end']}]")
    good = {n: build_path(case["e"][n]) for n in NAMES}
    CoonsPatch(**good)
    part = dict(good)
    part.pop(NAMES[case["drop"]])
    must_raise(lambda: CoonsPatch(**part), "three edges")
    s, n = ref_path(case["e"]["south"]), ref_path(case["e"]["north"])
    c = {"p00": V(s(0.0)), "p10": V(s(1.0)), "p11": V(n(1.0)), "p01": V(n(0.0))}
    CoonsPatch(**c)
    c.pop(("p00", "p10", "p11", "p01")[case["drop"]])
    must_raise(lambda: CoonsPatch(**c), "three corners")
    must_raise(lambda: CoonsPatch(), "no definition")


FACETS = [
    Facet("edges", patch_case, patch_, 250, rule="at least one edge is not straight"),
    Facet("corners", corner_case, corner, 150, rule="every case"),
    Facet("shift", shift_case, shift, 150, rule="every history of displacements"),
    Facet("later", later_case, later, 200, rule="every case"),
    Facet("reject", reject_case, reject, 150, rule="every case"),
]
ASSUMPTIONS = ["opposite corners are one to four units apart; edges are moderately curved"]
