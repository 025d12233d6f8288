"""C30: mesh helpers: lines with the requested spacing, meshes that cover the data."""
import numpy as np
from hypothesis import strategies as st

import VolterraBasis.basis as bf

from .. import gen
from ..core import Property, SubCheck, close, require, rng_of


def data1(case):
    rng = rng_of(case["seed"], 30)
    n = case["n"]
    kind = case["kind"]
    if kind == "uniform":
        x = rng.uniform(-1, 1, size=n)
    elif kind == "normal":
        x = rng.normal(size=n)
    else:
        x = np.concatenate((rng.normal(-2, 0.1, size=n // 2), rng.normal(3, 0.5, size=n - n // 2)))
    return case["scale"] * x + case["shift"]


def check_line(case):
    what, n = case["what"], case["elems"]
    x0, x1 = case["x0"], case["x0"] + case["width"]
    s = abs(x0) + abs(x1)
    if what == "uniform":
        p = np.asarray(bf.uniform_line(x0, x1, n))
        require(p.shape == (n + 1,), "%s points for %d elements", p.shape, n)
        close(p, x0 + (x1 - x0) * np.arange(n + 1) / n, "uniform line", rtol=1e-13, scale=s)
    elif what == "ratio":
        q = case["ratio"]
        p = np.asarray(bf.non_uniform_line(x0, x1, n, q))
        require(p.shape == (n + 1,), "%s points for %d elements", p.shape, n)
        require(np.all(np.isfinite(p)), "points that are not finite (ratio %g)", q)
        w = float(q) ** np.arange(n)
        want = x0 + (x1 - x0) * np.concatenate(([0.0], np.cumsum(w) / w.sum()))
        close(p, want, "line in geometric progression", rtol=1e-11, scale=s)
        require(np.all(np.diff(p) >= -1e-12 * s), "the points are not increasing")
    elif what == "data":
        x = data1(case)
        kw = {}
        lo, hi = x.min(), x.max()
        if case["own"]:
            lo, hi = lo - 0.5 * case["width"], hi + 0.25 * case["width"]
            if case["shift"] > 0 and lo > 0:
                lo = 0.0  # a bound may be zero
            kw = {"x_start": lo, "x_end": hi} if case["own"] == 1 else ({"x_start": lo} if case["own"] == 2 else {"x_end": hi})
            lo = lo if "x_start" in kw else x.min()
            hi = hi if "x_end" in kw else x.max()
        y = x if case["flat"] else x[:, None]
        keep = y.copy()
        p = np.asarray(bf.data_driven_line(y, bins=n, **kw))
        close(p, np.linspace(lo, hi, n + 1), "line over the data", rtol=1e-12, scale=abs(lo) + abs(hi))
        require(np.array_equal(y, keep), "the data have been modified")
    return {"nontrivial": n > 1, "labels": [what, case["kind"]]}


def line_cases():
    return st.fixed_dictionaries(
        {
            "what": st.sampled_from(["uniform", "ratio", "ratio", "data"]),
            "elems": st.one_of(st.integers(1, 30), st.integers(30, 90)),
            "x0": st.sampled_from([0.0, -1.0, 2.5, -30.0, 1e-3]),
            "width": st.sampled_from([1.0, 0.01, 3.7, 200.0]),
            "ratio": st.sampled_from([0.5, 0.9, 1.0, 1.1, 2.0, 1.5, 2, 0.3, 1.0000001, 0.99999, 1 + 1e-9, 1 + 1e-12]),
            "seed": gen.seeds,
            "n": st.one_of(*[st.integers(2, 60)] * 8, st.integers(3000, 9000)),
            "kind": st.sampled_from(["uniform", "normal", "two"]),
            "scale": st.sampled_from([1.0, 0.01, 50.0, 1e-5]),
            "shift": st.sampled_from([0.0, 10.0, -3.0]),
            "own": st.integers(0, 3),
            "flat": st.booleans(),
        }
    )


def check_centroid_line(case):
    x = data1(case)
    n = case["bins"]
    keep = x.copy()
    p = np.asarray(bf.centroid_driven_line(x[:, None], bins=n))
    require(np.array_equal(x, keep), "the data have been modified")
    require(p.shape == (n + 2,), "%s points for %d centroids", p.shape, n)
    require(p[0] == x.min() and p[-1] == x.max(), "ends %g and %g, the data go from %g to %g", p[0], p[-1], x.min(), x.max())
    require(np.all(np.diff(p) >= -1e-9 * (np.abs(p).max() + 1e-300)), "the points are not sorted")
    c = p[1:-1]
    # the centres are averages of the data around them
    lab = np.argmin(np.abs(x[:, None] - c[None, :]), axis=1)
    spread = x.max() - x.min()
    for k in range(n):
        if np.any(lab == k):
            require(abs(x[lab == k].mean() - c[k]) <= 0.05 * spread, "centre %d at %g while the data around have the mean %g", k, c[k], x[lab == k].mean())
    close(np.asarray(bf.centroid_driven_line(x[:, None], bins=n)), p, "second call", rtol=1e-12)
    return {"nontrivial": n > 1, "labels": [case["kind"], "bins%d" % n]}


def centroid_cases():
    return st.fixed_dictionaries({"seed": gen.seeds, "n": st.integers(30, 120), "bins": st.integers(1, 8), "kind": st.sampled_from(["uniform", "normal", "two"]), "scale": st.sampled_from([1.0, 0.01, 50.0]), "shift": st.sampled_from([0.0, 10.0])})


def inside(pts, V, T, tol):
    """Every point within a triangle of the mesh."""
    ok = np.zeros(len(pts), dtype=bool)
    for t in T:
        A = np.vstack((V[t].T, np.ones(3)))
        if abs(np.linalg.det(A)) < 1e-14 * max(np.abs(V).max(), 1e-300) ** 2:
            continue
        lam = np.linalg.solve(A, np.vstack((pts.T, np.ones(len(pts)))))
        ok |= np.all(lam > -tol, axis=0)
    return ok


def check_mesh(case):
    rng = rng_of(case["seed"], 31)
    n = case["n"]
    data = rng.uniform(-1, 1, size=(n, 2)) if case["kind"] == "uniform" else rng.normal(size=(n, 2))
    if case["kind"] == "disc":
        r, th = np.sqrt(rng.uniform(size=n)), rng.uniform(0, 2 * np.pi, size=n)
        data = np.stack((r * np.cos(th), r * np.sin(th)), axis=1)
    sc = case["scale"]
    data = (data * np.array([1.0, case["aspect"]]) + case["shift"]) * sc
    keep = data.copy()
    bins = case["bins"]
    kw = {"simplify_hull": case["simplify"]}
    bnd = None
    if case["own"]:
        lo, hi = data.min(axis=0) - 0.3 * sc, data.max(axis=0) + 0.2 * sc
        bnd = np.array([[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1]], [lo[0], hi[1]]])
        kw["boundary_vertices"] = bnd if case["own"] == 1 else bnd.tolist()
    V, T = bf.centroid_driven_mesh(data, bins=bins, **kw)
    V, T = np.asarray(V), np.asarray(T)
    require(np.array_equal(data, keep), "the data have been modified")
    require(V.ndim == 2 and V.shape[1] == 2 and T.ndim == 2 and T.shape[1] == 3, "vertices %s and triangles %s", V.shape, T.shape)
    require(len(V) >= bins + 3, "%d vertices for %d centres and a boundary", len(V), bins)
    require(T.min() >= 0 and T.max() < len(V), "triangles refer to vertices which do not exist")
    ok = inside(data, V, T, 1e-7)
    require(np.all(ok), "%d points of the data are outside of the mesh, the first one is %s", np.sum(~ok), data[~ok][:1].tolist())
    # the vertices inside are averages of the data around them
    c = V[len(V) - bins :]
    lab = np.argmin(np.sum((data[:, None] - c[None]) ** 2, axis=2), axis=1)
    for k in range(bins):
        if np.any(lab == k):
            require(np.all(np.abs(data[lab == k].mean(axis=0) - c[k]) <= 0.1 * np.ptp(data, axis=0).max()), "centre %d at %s while the data around have the mean %s", k, c[k], data[lab == k].mean(axis=0))
    # the triangles do not overlap: their areas sum to that of the hull
    a = V[T]
    areas = 0.5 * np.abs((a[:, 1, 0] - a[:, 0, 0]) * (a[:, 2, 1] - a[:, 0, 1]) - (a[:, 2, 0] - a[:, 0, 0]) * (a[:, 1, 1] - a[:, 0, 1]))
    from scipy.spatial import ConvexHull

    close(areas.sum(), ConvexHull(V).volume, "area of the mesh", rtol=1e-7)
    if bnd is not None:
        close(V[:4], bnd, "given boundary", rtol=0)
        require(len(V) == 4 + bins, "%d vertices for 4 boundary points and %d centres", len(V), bins)
    if case["simplify"] == 0 and bnd is None:
        h = data[ConvexHull(data).vertices]
        require(len(V) == len(h) + bins, "%d vertices, the hull has %d points and %d centres were asked", len(V), len(h), bins)
        close(ConvexHull(V).volume, ConvexHull(data).volume, "area of the hull", rtol=1e-9)
    if case["simplify"] > 0 and bnd is None:
        h = V[: len(V) - bins]
        l2 = np.sum(np.diff(h, axis=0) ** 2, axis=1)
        require(l2.min() >= case["simplify"] * l2.sum() * (1 - 1e-9), "the simplified hull has an edge of %g of the whole, the limit is %g", l2.min() / l2.sum(), case["simplify"])
    return {"nontrivial": True, "labels": [case["kind"], "simplify%g" % case["simplify"], "own boundary" if case["own"] else "hull"]}


def check_intersect(case):
    rng = rng_of(case["seed"], 32)
    a1, b1 = rng.normal(size=2) * case["scale"], rng.normal(size=2) * case["scale"]
    u = rng.normal(size=2)
    if case["parallel"]:
        # exactly parallel: small integers
        a1, b1, u = np.round(a1 / case["scale"] * 4), np.round(b1 / case["scale"] * 4), np.round(3 * u) + np.array([0.0, 7.0])
        p = bf.get_intersect(a1, a1 + u, b1, b1 + case["parallel"] * u)
        same = (b1 - a1)[0] * u[1] - (b1 - a1)[1] * u[0] == 0
        require(len(p) == 2 and (same or np.all(np.isinf(p))), "parallel lines intersect at %s", p)
        return {"nontrivial": not same, "labels": ["parallel"]}
    w = rng.normal(size=2)
    if case["close"]:  # a small angle
        w = rng.uniform(0.5, 2.0) * u + 10.0 ** -rng.uniform(1, 4) * w
    a2, b2 = a1 + u * case["scale"], b1 + w * case["scale"]
    x = np.asarray(bf.get_intersect(a1, a2, b1, b2), dtype=float)
    det = u[0] * w[1] - u[1] * w[0]
    if abs(det) < (1e-6 if case["close"] else 0.05):
        return {"nontrivial": False, "labels": ["nearly parallel"]}
    t = np.linalg.solve(np.stack((u, -w), axis=1), (b1 - a1) / case["scale"])
    close(x, a1 + t[0] * u * case["scale"], "intersection", rtol=max(1e-9, 1e-11 / abs(det)), scale=case["scale"] * (1 + abs(t[0])) * 10)
    return {"nontrivial": True, "labels": ["crossing"]}


def intersect_cases():
    return st.fixed_dictionaries({"seed": gen.seeds, "scale": st.sampled_from([1.0, 100.0, 0.01, 1e-5, 1e5]), "close": st.booleans(), "parallel": st.sampled_from([0, 0, 1, 2, -1])})


def mesh_cases():
    return st.fixed_dictionaries({"seed": gen.seeds, "n": st.integers(20, 200), "bins": st.integers(1, 10), "kind": st.sampled_from(["uniform", "normal", "disc"]), "aspect": st.sampled_from([1.0, 1.0, 0.3, 4.0]), "shift": st.sampled_from([0.0, 5.0]), "scale": st.sampled_from([1.0, 1.0, 1e-4, 300.0]), "simplify": st.sampled_from([0, 0, 0.001, 0.01, 0.03]), "own": st.sampled_from([0, 0, 0, 1, 2])})


PROPERTY = Property(
    "C30",
    "lines with 1-30 elements, ends, ratios (one included) and data of three kinds: number of points, ends, spacing; centres of one dimensional data: sorted, between the ends, averages of the data around them; meshes of two dimensional data: every data point is covered, triangles do not overlap, hull and given boundaries are kept; intersections of two lines. Non-trivial: more than one element.",
    [SubCheck("line", line_cases, check_line, 400), SubCheck("centroid", centroid_cases, check_centroid_line, 200), SubCheck("mesh", mesh_cases, check_mesh, 500), SubCheck("intersect", intersect_cases, check_intersect, 400)],
    assumptions=["the position of the centres is only required to be the average of the data around within 5% of their extent: the clustering is that of scikit-learn"],
)
