"""Comparisons and mesh oracles.  Tolerances are stated where they are used."""

from collections import Counter

import numpy as np

from hv.core import Violation


def close(got, want, tol, what):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} instead of {want.shape}")
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        raise Violation(f"{what}: not finite: {got.ravel()[:6].tolist()}")
    err = float(np.abs(got - want).max())
    if not err <= tol:
        raise Violation(
            f"{what}: differs by {err:.3g} (tolerance {tol:.3g}); "
            f"got {np.round(got.ravel()[:6], 6).tolist()} "
            f"want {np.round(want.ravel()[:6], 6).tolist()}"
        )


def require(ok, what):
    if not ok:
        raise Violation(what)


def must_raise(fn, what):
    try:
        fn()
    except Exception:
        return
    raise Violation(f"{what}: accepted instead of rejected")


# ------------------------------------------------------------------- meshes


def weld(vectors, tol):
    """Vertex ids of an (n,3,3) triangle array, joining vertices closer than
    tol.  Uses single-linkage so no vertex pair straddles a bucket border."""
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components
    from scipy.spatial import cKDTree

    pts = np.asarray(vectors, float).reshape(-1, 3)
    pairs = cKDTree(pts).query_pairs(tol, output_type="ndarray")
    n = len(pts)
    graph = coo_matrix(
        (np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])), shape=(n, n)
    )
    _, ids = connected_components(graph, directed=False)
    return ids.reshape(-1, 3)


def edge_report(vectors, rel=2e-5):
    """(open or over-shared edges, wrongly directed edges, usable triangles)
    after welding at rel times the model size; collapsed triangles dropped."""
    v = np.asarray(vectors, float)
    if not np.all(np.isfinite(v)):
        raise Violation("mesh has non-finite vertices")
    size = np.ptp(v.reshape(-1, 3), axis=0).max() or 1.0
    ids = weld(v, rel * size)
    directed, undirected = Counter(), Counter()
    used = 0
    for a, b, c in ids.tolist():
        if a == b or b == c or a == c:
            continue
        used += 1
        for p, q in ((a, b), (b, c), (c, a)):
            directed[(p, q)] += 1
            undirected[(p, q) if p < q else (q, p)] += 1
    bad = sum(1 for n in undirected.values() if n != 2)
    wrong = sum(
        1 for (p, q), n in directed.items() if directed.get((q, p), 0) != n
    )
    return bad, wrong, used


def bad_edges(vectors, rel=2e-5):
    """End points (n,2,3) of the edges not used exactly twice."""
    v = np.asarray(vectors, float)
    size = np.ptp(v.reshape(-1, 3), axis=0).max() or 1.0
    ids = weld(v, rel * size)
    und, where = Counter(), {}
    for t, (a, b, c) in enumerate(ids.tolist()):
        if a == b or b == c or a == c:
            continue
        for p, q, i, j in ((a, b, 0, 1), (b, c, 1, 2), (c, a, 2, 0)):
            e = (p, q) if p < q else (q, p)
            und[e] += 1
            where[e] = (v[t, i], v[t, j])
    return np.array([where[e] for e, n in und.items() if n != 2]).reshape(-1, 2, 3)


def edge_parity_report(vectors, rel=2e-5):
    """Number of edges used an odd number of times (tolerates coincident
    sheets)."""
    v = np.asarray(vectors, float)
    size = np.ptp(v.reshape(-1, 3), axis=0).max() or 1.0
    ids = weld(v, rel * size)
    und = Counter()
    for a, b, c in ids.tolist():
        if a == b or b == c or a == c:
            continue
        for p, q in ((a, b), (b, c), (c, a)):
            und[(p, q) if p < q else (q, p)] += 1
    return sum(1 for n in und.values() if n % 2)


def signed_volume(vectors):
    v = np.asarray(vectors, float)
    c = v.reshape(-1, 3).mean(axis=0)
    w = v - c
    return float(np.einsum("ij,ij->i", w[:, 0], np.cross(w[:, 1], w[:, 2])).sum() / 6)


def area(vectors):
    v = np.asarray(vectors, float)
    n = np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0])
    return float(np.linalg.norm(n, axis=1).sum() / 2)


def mass_properties(vectors, density=1.0):
    """Volume, mass, centre of gravity and inertia about it, by exact
    integration over signed tetrahedra in double precision."""
    v = np.asarray(vectors, float)
    ref = v.reshape(-1, 3).mean(axis=0)
    w = v - ref
    d = np.einsum("ij,ij->i", w[:, 0], np.cross(w[:, 1], w[:, 2])) / 6
    vol = d.sum()
    s = w.sum(axis=1)
    first = (d[:, None] * s / 4).sum(axis=0)
    second = np.zeros((3, 3))
    for k in range(3):
        second += np.einsum("i,ij,il->jl", d, w[:, k], w[:, k])
    second += np.einsum("i,ij,il->jl", d, s, s)
    second /= 20
    c = first / vol
    cov = second - vol * np.outer(c, c)
    inertia = density * (np.trace(cov) * np.eye(3) - cov)
    return vol, vol * density, ref + c, inertia
