"""C06: finite element bases: right element, Lagrange functions, gradients."""
import numpy as np
import skfem
from scipy.spatial import Delaunay
from hypothesis import strategies as st

import VolterraBasis.basis as bf

from .. import gen
from ..core import Property, SubCheck, close, require, rng_of


def make_mesh(case):
    rng = rng_of(case["seed"], 1)
    d = case["dim"]
    if d == 1:
        p = np.cumsum(rng.uniform(0.1, 1.0, size=case["m"] + 1)) - 1.3
        if case["shuffle"]:  # same mesh, vertices and elements numbered in another order
            perm = rng.permutation(len(p))
            inv = np.argsort(perm)
            t = np.stack((inv[np.arange(case["m"])], inv[np.arange(1, case["m"] + 1)]))
            t = t[:, rng.permutation(case["m"])]
            flip = rng.integers(0, 2, size=case["m"]).astype(bool)
            t[:, flip] = t[::-1, flip]
            return skfem.MeshLine(p[perm][None, :], t, sort_t=False)
        return skfem.MeshLine(p)
    if case["scatter"]:  # triangulation of points placed at random
        pts = rng.uniform(-1, 1, size=(4 + 3 * sum(case["grid"][:d]), d))
        t = Delaunay(pts).simplices
        V = np.concatenate((pts[t], np.ones(t.shape + (1,))), axis=2)
        t = t[np.abs(np.linalg.det(V)) > 1e-4]  # flat ones on the border
        used, t = np.unique(t, return_inverse=True)
        m = {2: skfem.MeshTri, 3: skfem.MeshTet}[d](pts[used].T, t.reshape(-1, d + 1).T)
    else:
        nx = [np.concatenate(([0.0], np.cumsum(rng.uniform(0.2, 1.0, size=k)))) for k in case["grid"][:d]]
        m = skfem.MeshTri.init_tensor(*nx) if d == 2 else skfem.MeshTet.init_tensor(*nx)
    if case["shear"]:
        A = np.eye(d) + 0.4 * np.triu(rng.uniform(-1, 1, size=(d, d)), 1)
        A[0] *= rng.uniform(0.3, 3.0)
        m = type(m)(A @ m.p, m.t)
    if case["shuffle"]:
        perm = rng.permutation(m.p.shape[1])
        t = np.argsort(perm)[m.t][:, rng.permutation(m.t.shape[1])]
        m = type(m)(m.p[:, perm], rng.permuted(t, axis=0))
    return m


ELEMS = {(1, 1): skfem.ElementLineP1, (1, 2): skfem.ElementLineP2, (2, 1): skfem.ElementTriP1, (2, 2): skfem.ElementTriP2, (3, 1): skfem.ElementTetP1, (3, 2): skfem.ElementTetP2}


def inside_points(m, n, rng):
    """Points of the mesh with the element they were drawn from."""
    el = rng.integers(0, m.t.shape[1], size=n)
    w = rng.dirichlet(np.ones(m.t.shape[0]), size=n)
    return np.einsum("nv,dvn->nd", w, m.p[:, m.t[:, el]]), el


def barycentric(m, el, x):
    """Barycentric coordinates of the points in the elements el."""
    out = []
    for e, pt in zip(el, x):
        V = m.p[:, m.t[:, e]]
        A = np.vstack((V, np.ones(V.shape[1])))
        out.append(np.linalg.solve(A, np.append(pt, 1.0)))
    return np.array(out)


def check(case):
    d, deg = case["dim"], case["deg"]
    rng = rng_of(case["seed"], 2)
    m = make_mesh(case)
    fb = skfem.CellBasis(m, ELEMS[d, deg]())
    X, _ = inside_points(m, case["n"], rng)
    on = case["vertices"]
    if on:
        X = np.concatenate((X, m.p.T[rng.integers(0, m.p.shape[1], size=3)]))
        if d == 1:
            X = np.concatenate((X, [[m.p.min()], [m.p.max()]]))
    X = np.ascontiguousarray(X)
    X0 = X.copy()
    b = bf.FEMScalarFeatures(fb)
    r = b.fit(X)
    require(r is b, "fit does not return the basis")
    require(b.n_output_features_ == fb.N, "n_output_features_ %s, %d degrees of freedom", b.n_output_features_, fb.N)
    # 1. the element found contains the point
    el = np.asarray(b.element_finder(X))
    require(np.array_equal(X, X0), "the element finder modified the points")
    bc = barycentric(m, el, X)
    require(bc.min() > -1e-8, "point %s is not in the element found (barycentric coordinate %g)", X[np.argmin(bc.min(axis=1))], bc.min())
    # 2. the functions reproduce the polynomials of the element degree
    B = b.basis(X)
    B = B.todense() if hasattr(B, "todense") else B
    D = b.deriv(X)
    D = D.todense() if hasattr(D, "todense") else D
    require(np.array_equal(X, X0), "points modified")
    require(B.shape == (len(X), fb.N) and D.shape == (len(X), fb.N, d), "shapes %s %s", B.shape, D.shape)
    close(B.sum(axis=1), np.ones(len(X)), "sum of the functions", rtol=1e-8)
    gsc = np.abs(D).max()
    close(D.sum(axis=1), np.zeros((len(X), d)), "sum of the gradients", rtol=1e-8, scale=gsc)
    loc = fb.doflocs
    c0, c1 = rng.normal(), rng.normal(size=d)
    Q = rng.normal(size=(d, d)) if deg == 2 else np.zeros((d, d))
    f = lambda P: c0 + c1 @ P + np.einsum("dn,de,en->n", P, Q, P)
    gf = lambda P: c1[:, None] + (Q + Q.T) @ P
    val = f(loc)
    sc = max(1.0, np.abs(val).max())
    close(B @ val, f(X.T), "interpolation of a polynomial of degree %d" % deg, rtol=1e-7, scale=sc)
    G = np.einsum("nkd,k->nd", D, val)
    close(G, gf(X.T).T, "gradient of the interpolation", rtol=1e-7, scale=sc * max(1.0, gsc))
    # 3. support: a function vanishes outside the elements that contain its degree of freedom
    own = fb.element_dofs[:, el].T
    mask = np.zeros_like(B, dtype=bool)
    np.put_along_axis(mask, own, True, axis=1)
    require(np.abs(np.where(mask, 0, B)).max() < 1e-9, "a function is non zero outside of its elements")
    # 4. unit value at its own degree of freedom
    dl = np.ascontiguousarray(loc.T[rng.integers(0, fb.N, size=2)])
    Bl = b.basis(dl)
    close(Bl @ val, f(dl.T), "value at the degrees of freedom", rtol=1e-7, scale=sc)
    # the same array with other points, results overwritten, another basis at the same points
    Z, perm = X.copy(), rng.permutation(len(X))
    for g, want, gs in ((b.basis, B, 1.0), (b.deriv, D, max(1.0, gsc))):
        out = g(Z)
        if isinstance(out, np.ndarray) and out.flags.writeable:
            out[...] = -7.0
        out = g(Z)
        close(out.todense() if hasattr(out, "todense") else out, want, "%s at the same points, again" % g.__name__, rtol=1e-9, scale=gs)
        Z[:] = X[perm]
        out = g(Z)
        close(out.todense() if hasattr(out, "todense") else out, want[perm], "%s at an array whose points have changed" % g.__name__, rtol=1e-9, scale=gs)
        Z[:] = X
    # 5. one point at a time
    close(b.basis(X[:1].copy()), B[:1], "single point", rtol=1e-9, scale=1.0)
    return {"nontrivial": m.t.shape[1] > 1, "labels": ["dim%d" % d, "P%d" % deg, "shuffled" if case["shuffle"] else "sorted", "scattered" if case["scatter"] and d > 1 else "grid", "vertices" if on else "interior"]}


@st.composite
def cases(draw):
    d = draw(st.sampled_from([1, 1, 2, 2, 3]))
    return {
        "dim": d,
        "deg": draw(st.integers(1, 2)),
        "m": draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 120))),
        "grid": draw(st.lists(st.integers(1, 5 if d == 2 else 3), min_size=3, max_size=3)),
        "shuffle": draw(st.booleans()),
        "scatter": draw(st.integers(0, 2)) == 0,
        "shear": draw(st.booleans()),
        "vertices": draw(st.booleans()),
        "n": draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 400))),
        "seed": draw(gen.seeds),
    }


PROPERTY = Property(
    "C06",
    "random line, triangle and tetrahedron meshes (non uniform, sheared, of random points, vertices and elements in any order), P1 and P2 elements, points inside elements, on vertices and at the ends; oracle: barycentric coordinates, exact reproduction of random polynomials and of their gradients, partition of unity, support. Non-trivial: more than one element.",
    [SubCheck("fem", cases, check, 2500)],
    assumptions=["scikit-fem provides the reference shape functions and the location of the degrees of freedom", "points outside of the mesh are not claimed"],
)
