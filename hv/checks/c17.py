"""C17: the mesh check and mesh repair tell the truth about the mesh."""

from collections import Counter

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet, HarnessError
from hv.gen import V
from hv.oracle import close, require

# --------------------------------------------------------------- closed meshes


def _tetrahedron():
    return 4, [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]


def _octahedron():
    t = []
    for k in range(4):
        a, b = k, (k + 1) % 4
        t += [[a, b, 4], [b, a, 5]]
    return 6, t


def _prism(n):
    """Two fans joined by a band."""
    t = []
    for k in range(n):
        a, b = k, (k + 1) % n
        t += [[a, b, 2 * n], [n + b, n + a, 2 * n + 1], [a, n + a, b], [b, n + a, n + b]]
    return 2 * n + 2, t


def _torus(n, m):
    t = []
    at = lambda i, j: (i % n) * m + j % m
    for i in range(n):
        for j in range(m):
            t += [[at(i, j), at(i + 1, j), at(i, j + 1)], [at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)]]
    return n * m, t


def topology(k):
    return {
        "tet": _tetrahedron,
        "oct": _octahedron,
        "prism3": lambda: _prism(3),
        "prism5": lambda: _prism(5),
        "torus": lambda: _torus(3, 4),
        "torus5": lambda: _torus(5, 3),
    }[k]()


KINDS = ["tet", "oct", "prism3", "prism5", "torus", "torus5"]
GRID = 64  # coordinates are multiples of 1/64, so that single precision is exact


@st.composite
def closed_case(draw):
    bodies = [draw(st.sampled_from(KINDS)) for _ in range(draw(st.integers(1, 2)))]
    n = sum(topology(k)[0] for k in bodies)
    # points of a coarse lattice, all different, then shifted within their cell
    cells = draw(st.lists(st.integers(0, 11**3 - 1), min_size=n, max_size=n, unique=True))
    jit = draw(st.lists(st.integers(-7, 7), min_size=3 * n, max_size=3 * n))
    pts = []
    for i, c in enumerate(cells):
        pts.append([32 * (c % 11 - 5) + jit[3 * i], 32 * (c // 11 % 11 - 5) + jit[3 * i + 1], 32 * (c // 121 - 5) + jit[3 * i + 2]])
    return {"bodies": bodies, "pts": pts, "turn": draw(st.integers(0, 2)), "flip": draw(st.booleans())}


def triangles(case):
    """(n,3,3) vertices, or None when a triangle has no area."""
    tri, base = [], 0
    for k in case["bodies"]:
        n, t = topology(k)
        tri += [[base + i for i in f] for f in t]
        base += n
    tri = np.array(tri)
    if case["flip"]:
        tri = tri[:, ::-1]
    tri = np.roll(tri, case["turn"], axis=1)
    v = np.array(case["pts"], float)[tri] / GRID
    n = np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0])
    if not (np.abs(n).max(axis=1) > 0).all():
        return None
    return v


def component(v):
    from hypervehicle.components import Cube
    from stl import mesh

    data = np.zeros(len(v), dtype=mesh.Mesh.dtype)
    data["vectors"] = v
    c = Cube(1.0, verbosity=0)
    c.mesh = mesh.Mesh(data)
    return c


def is_closed(v):
    """Every directed edge once, and its reverse once."""
    e = Counter()
    for f in np.asarray(v):
        p = [tuple(x) for x in f.tolist()]
        for a, b in ((0, 1), (1, 2), (2, 0)):
            e[(p[a], p[b])] += 1
    return all(n == 1 for n in e.values()) and all((b, a) in e for a, b in e)


def answers(v):
    c = component(v)
    before = np.array(c.mesh.vectors)
    out = {
        "both": c.stl_check(),
        "area": c.stl_check(project_area=True, matching_lines=False),
        "lines": c.stl_check(project_area=False, matching_lines=True),
    }
    require((np.array(c.mesh.vectors) == before).all(), "the check changed the mesh")
    for k, a in out.items():
        require(a is True or a is False or isinstance(a, np.bool_), f"{k}: answer {a!r} is neither true nor false")
    return {k: bool(a) for k, a in out.items()}


def accepts(case, ctx):
    v = triangles(case)
    if v is None:
        ctx.skip("triangle without area")
        return
    if not is_closed(v):
        raise HarnessError("generated mesh is not closed")
    for k, a in answers(v).items():
        require(a, f"closed mesh of {len(v)} triangles rejected by the check ({k})")
    ctx.label("+".join(sorted(case["bodies"])))


@st.composite
def defect_case(draw):
    c = draw(closed_case())
    c["defect"] = draw(st.sampled_from(["missing", "duplicated", "reversed", "crack"]))
    c["at"] = draw(st.integers(0, 999))
    c["corner"] = draw(st.integers(0, 2))
    c["shift"] = [draw(st.integers(1, 20)) * draw(st.sampled_from([-1, 1])) for _ in range(3)]
    return c


def rejects(case, ctx):
    v = triangles(case)
    if v is None:
        ctx.skip("triangle without area")
        return
    i, k = case["at"] % len(v), case["defect"]
    if k == "missing":
        w = np.delete(v, i, axis=0)
    elif k == "duplicated":
        w = np.concatenate([v, v[i : i + 1]])
    elif k == "reversed":
        w = v.copy()
        w[i] = w[i][::-1]
    else:
        w = v.copy()
        w[i, case["corner"]] += np.array(case["shift"]) / GRID
    a = answers(w)
    require(not a["both"], f"mesh with a {k} triangle accepted")
    require(not a["lines"], f"mesh with a {k} triangle accepted by the edge check on its own")
    if k != "crack":
        # the projected areas cannot cancel; a moved corner may leave them alone
        require(not a["area"], f"mesh with a {k} triangle accepted by the area check on its own")
    ctx.label(k)


BOX = [[0, 2, 1], [1, 2, 3], [4, 5, 6], [5, 7, 6], [0, 1, 4], [1, 5, 4], [2, 6, 3], [3, 6, 7], [0, 4, 2], [2, 4, 6], [1, 3, 5], [3, 7, 5]]


@st.composite
def box_case(draw):
    return {
        "large": [draw(st.integers(64, 640)) for _ in range(3)],
        "small": [draw(st.integers(4, 64)) for _ in range(3)],
        "defect": draw(st.sampled_from(["none", "missing", "duplicated", "reversed", "widened"])),
        "at": draw(st.integers(0, 11)),
        "flip": draw(st.booleans()),
    }


def boxes(case, ctx):
    """A large and a small box with faces along the axes; the defect is in one
    triangle of the small one, so that two of the three projected areas are still
    right and the third is wrong by a small part of the whole."""
    v = []
    for size, off in ((case["large"], 0), (case["small"], 1024)):
        p = np.array([[off + size[k] * (i >> k & 1) for k in range(3)] for i in range(8)], float)
        v.append(p[np.array(BOX)] / GRID)
    v = np.concatenate(v)
    if case["flip"]:
        v = v[:, ::-1]
    if not is_closed(v):
        raise HarnessError("generated boxes are not closed")
    i, k = 12 + case["at"], case["defect"]
    w = v.copy()
    if k == "missing":
        w = np.delete(v, i, axis=0)
    elif k == "duplicated":
        w = np.concatenate([v, v[i : i + 1]])
    elif k == "reversed":
        w[i] = w[i][::-1]
    elif k == "widened":
        # one corner further out in the plane of its face: still along the axis
        w[i, 0] += 0.5 * (w[i, 0] - 0.5 * (w[i, 1] + w[i, 2]))
    a = answers(w)
    for what, x in a.items():
        require(x == (k == "none"), f"boxes with a {k} triangle: the check ({what}) says {x}")
    ctx.label(k)


# --------------------------------------------------------------------- repair


@st.composite
def repair_case(draw):
    c = draw(closed_case())
    c["distance"] = draw(st.sampled_from([None, 1e-5, 1e-4, 1e-3, 1e-2]))
    c["seed"] = draw(st.integers(0, 2**32 - 1))
    c["much"] = draw(st.sampled_from([0.0, 0.1, 0.45]))
    c["only"] = draw(st.booleans())
    return c


def repair(case, ctx):
    v = triangles(case)
    if v is None:
        ctx.skip("triangle without area")
        return
    d = case["distance"] or 1e-6
    # the size of the model follows from the distance, so that the disturbance
    # is well above single precision
    v = v * (1.0 if case["distance"] else 0.125)
    r = np.random.default_rng(case["seed"])
    noise = r.uniform(-1, 1, v.shape) * case["much"] * d
    if case["only"]:
        # only a few corners are disturbed
        noise *= r.uniform(size=(len(v), 3, 1)) < 0.2
    w = (v + noise).astype(np.float32)
    c = component(w)
    was = np.array(c.mesh.vectors, float)

    def fix():
        c.stl_repair(case["distance"]) if case["distance"] else c.stl_repair()
        return np.array(c.mesh.vectors, float)

    a = fix()
    require(a.shape == w.shape, f"repair changed the mesh from {w.shape} to {a.shape}")
    require(np.isfinite(a).all(), "repair made the mesh non-finite")
    moved = np.abs(a - was).max()
    require(moved <= d * 1.0001 + 3e-7, f"a vertex moved {moved:.3g}, more than the distance {d}")
    close(a, v, d + 3e-7, "repaired mesh")
    # corners that were one point are one point again, and no others
    key = [tuple(p) for p in v.reshape(-1, 3).tolist()]
    got = [tuple(p) for p in a.reshape(-1, 3).tolist()]
    groups = {}
    for x, y in zip(key, got):
        groups.setdefault(x, set()).add(y)
    apart = [x for x, y in groups.items() if len(y) > 1]
    require(not apart, f"{len(apart)} points still differ between triangles, first at {apart[:1]}")
    require(len(set(got)) == len(groups), f"{len(groups)} points became {len(set(got))}")
    require(is_closed(a), "repaired mesh is not closed")
    require(bool(c.stl_check(project_area=False)), "repaired mesh is rejected by the edge check")
    b = fix()
    require((a == b).all(), f"repairing twice changed the mesh by {np.abs(a - b).max():.3g}")
    if case["much"] == 0.0:
        require((a == was).all(), f"repairing a clean mesh changed it by {np.abs(a - was).max():.3g}")
        ctx.label("clean")
        ctx.skip("clean")
    else:
        ctx.label("few corners" if case["only"] else "all corners")


# ------------------------------------------------------------------ components


@st.composite
def cube_case(draw):
    return {
        "r": draw(st.integers(1, 16)) / 8,
        "c": [draw(st.integers(-16, 16)) / 8 for _ in range(3)],
        "res": 2 ** draw(st.integers(0, 2)),
        "d": draw(st.sampled_from([None, 1e-6, 1e-4])),
    }


def cube(case, ctx):
    from hypervehicle.components import Cube

    c = Cube(case["r"], V(case["c"]), stl_resolution=case["res"], verbosity=0)
    c._multiprocess = False
    c.generate_patches()
    before = np.array(c.mesh.vectors)
    require(bool(c.stl_check()), "closed cube rejected")
    if case["d"]:
        c.stl_repair(case["d"])
        close(c.mesh.vectors, before, 1e-6, "repaired cube")
        require(bool(c.stl_check()), "repaired cube rejected")
    ctx.label(f"resolution {case['res']}")


FACETS = [
    Facet("accepts", closed_case, accepts, 500, rule="all triangles have area"),
    Facet("rejects", defect_case, rejects, 800, rule="all triangles have area"),
    Facet("boxes", box_case, boxes, 200, rule="every case"),
    Facet("repair", repair_case, repair, 500, rule="the mesh was disturbed"),
    Facet("cube", cube_case, cube, 60, rule="every case"),
]
