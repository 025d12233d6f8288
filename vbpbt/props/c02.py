"""C02: antiderivative() of a basis is a primitive of every function of basis()."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, SubCheck, close, require
from .c01 import BEYOND, away, col_scale, fd, points


def check(case):
    spec, dim, order = case["basis"], case["dim"], case["order"]
    fit, X, lo, hi = points(case, spec, dim, case["n"])
    br = gen.breakpoints(spec, lo, hi)
    lo, hi = lo * case.get("beyond", 1.0), hi * case.get("beyond", 1.0)
    X = away(X, br, lo, hi)
    b = gen.build(spec).fit(fit.copy())
    B = b.basis(X)
    A = b.antiderivative(X, order=order) if case["explicit"] or order > 1 else b.antiderivative(X)
    require(A.shape == B.shape, "antiderivative shape %s, basis %s", A.shape, B.shape)
    low = B if order == 1 else b.antiderivative(X, order=order - 1)
    f = lambda Y: b.antiderivative(Y, order=order)
    n = B.shape[1]
    for d in range(dim):
        g = fd(f, X, d)
        want = np.where((np.arange(n) % dim == d)[None, :], low, 0.0)
        close(g, want, "d/dx_%d of antiderivative order %d" % (d, order), rtol=2e-7, scale=col_scale(f, want, lo, hi, dim))
    # a primitive is continuous: the increments over an interval are the integral of the function (Gauss-Legendre)
    if order == 1:
        t, w = np.polynomial.legendre.leggauss(160)
        x0, x1 = X[:1], X[-1:]
        tot = np.zeros(n)
        for d in range(dim):
            a, c = sorted((x0[0, d], x1[0, d]))
            sgn = 1.0 if x1[0, d] >= x0[0, d] else -1.0
            edges = np.unique(np.concatenate(([a], br[(br > a) & (br < c)], [c])))
            for u, v in zip(edges[:-1], edges[1:]):
                Y = np.repeat(x0, len(t), axis=0)
                Y[:, d] = 0.5 * (u + v) + 0.5 * (v - u) * t
                tot += np.where(np.arange(n) % dim == d, sgn * 0.5 * (v - u) * (w @ b.basis(Y)), 0.0)
        close(A[-1] - A[0], tot, "integral of the basis between two points", rtol=1e-8, scale=max(np.abs(A).max(), 1e-3))
    return {"nontrivial": dim * order > 0 and bool(np.abs(B).max() > 0), "labels": [spec["kind"], "dim%d" % dim, "order%d" % order]}


@st.composite
def cases(draw):
    dim = draw(st.integers(1, 3))
    one = st.one_of(gen.linear_spec(), gen.poly_spec(), gen.fourier_spec(), gen.splinefct_spec())
    if dim == 1:
        one = st.one_of(one, gen.bspline_spec(kmax=4))
    spec = draw(one)
    order = 1 if spec["kind"] == "fourier" else draw(st.integers(1, 3))
    if spec["kind"] == "bspline":
        order = 1 if spec["k"] == 4 else min(order, 5 - spec["k"])
    return {"basis": spec, "dim": dim, "order": order, "explicit": draw(st.booleans()), "n": draw(st.integers(2, 8)), "seed": draw(gen.seeds), "scale": draw(st.sampled_from([1.0, 0.5, 1.5])), "beyond": draw(BEYOND)}


PROPERTY = Property(
    "C02",
    "random basis that defines antiderivative (linear, polynomial, Fourier, spline function, B-splines), dimension 1-3, orders 1-3: the derivative of the antiderivative (finite differences) is the function (or the lower antiderivative), and its increments equal a Gauss quadrature of basis(). Non-trivial: the basis is not identically zero.",
    [SubCheck("antiderivative", cases, check, 3500)],
    assumptions=["the integration constant is free", "B-splines integrated up to total degree 5"],
)
