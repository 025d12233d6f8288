"""C01: derivatives and Hessians returned by a basis are those of the functions it returns."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, SubCheck, close, require, rng_of

H = 2e-4
LO, HI = -2.0, 2.0
BEYOND = st.sampled_from([1.0, 1.0, 1.0, 1.3])  # the points go this far beyond the range of the data


def away(x, breaks, lo, hi, h=3 * H):
    """Move the points at least h away from the break points and inside lo..hi."""
    x = np.clip(x, lo + h, hi - h)
    for _ in range(4):
        for b in breaks:
            x = np.where(np.abs(x - b) < h, np.where(x >= b, b + 1.01 * h, b - 1.01 * h), x)
        x = np.clip(x, lo + h, hi - h)
    return x


def fd(f, X, d, h=H):
    """Fourth order central difference along coordinate d."""
    e = np.zeros((1, X.shape[1]))
    e[0, d] = h
    return (8 * (f(X + e) - f(X - e)) - (f(X + 2 * e) - f(X - 2 * e))) / (12 * h)


def col_scale(low, want, lo, hi, dim):
    """Magnitude of every function of the basis (second axis), over the whole range."""
    n = 33
    grid = np.stack([np.linspace(lo, hi, n)] + [np.linspace(lo, hi, n)[(np.arange(n) * (7 + 4 * d)) % n] for d in range(1, dim)], axis=1)
    g = np.abs(low(grid))
    g = g.reshape(g.shape[0], g.shape[1], -1).max(axis=(0, 2))
    w = np.abs(want).reshape(want.shape[0], want.shape[1], -1).max(axis=(0, 2))
    s = np.maximum(np.maximum(g, w), 1e-3)
    return s.reshape((1, -1) + (1,) * (want.ndim - 2))


def points(case, spec, dim, n):
    rng = rng_of(case["seed"], 1)
    lo, hi = LO * case["scale"], HI * case["scale"]
    fit = rng.uniform(lo, hi, size=(40, dim))
    fit[0], fit[1] = lo, hi
    X = rng.uniform(lo, hi, size=(n, dim))
    X = X * case.get("beyond", 1.0)  # the functions go on beyond the range of the data
    return fit, X, lo, hi


def check_1d(case):
    spec, dim, order = case["basis"], case["dim"], case["order"]
    fit, X, lo, hi = points(case, spec, dim, case["n"])
    br = gen.breakpoints(spec, lo, hi)
    lo, hi = lo * case.get("beyond", 1.0), hi * case.get("beyond", 1.0)
    X = away(X, br, lo, hi)
    b = gen.build(spec).fit(fit.copy())
    kept = gen.kept_columns(spec, dim)
    B = b.basis(X)
    shape = (X.shape[0], len(kept)) + (dim,) * order
    D = b.deriv(X, deriv_order=order)
    require(D.shape == shape, "deriv order %d: shape %s, expected %s", order, D.shape, shape)
    if order == 1:
        low = lambda Y: b.basis(Y)[:, kept]
    else:
        low = lambda Y: b.deriv(Y, deriv_order=order - 1)
    want = np.stack([fd(low, X, d) for d in range(dim)], axis=-1)
    scale = col_scale(low, want, lo, hi, dim)
    close(D, want, "deriv order %d" % order, rtol=2e-7, scale=scale)
    if order == 2:
        close(b.hessian(X), D, "hessian", rtol=1e-12, scale=scale)
    if order == 1:
        close(b.deriv(X), D, "default order of deriv", rtol=1e-13, scale=scale)
    return {"nontrivial": bool(np.abs(D).max() > 0), "labels": [spec["kind"], "dim%d" % dim, "order%d" % order, "rc%s" % spec.get("rc", "-")]}


def max_order(spec):
    return {"linear": 5, "poly": 7, "fourier": 7, "splinefct": spec.get("k", 1), "bspline": 3, "indicator": 2}[spec["kind"]]


@st.composite
def cases(draw, specs=None):
    dim = draw(st.sampled_from([1, 1, 1, 2, 3]))
    spec = draw((gen.basis_1d_spec() if dim == 1 else gen.basis_nd_spec()) if specs is None else specs)
    return {"basis": spec, "dim": dim, "order": draw(st.integers(1, max_order(spec) if dim < 3 else min(max_order(spec), 4))), "n": draw(st.integers(1, 25)), "seed": draw(gen.seeds), "scale": draw(st.sampled_from([1.0, 0.5, 1.5])), "beyond": draw(BEYOND)}


@st.composite
def comb_cases(draw):
    dim = draw(st.integers(1, 3))
    one = gen.basis_1d_spec() if dim == 1 else gen.basis_nd_spec()
    parts = draw(st.lists(one, min_size=1, max_size=4))
    mo = min(max_order(s) for s in parts)
    return {"basis": {"kind": "combine", "parts": parts}, "dim": dim, "order": draw(st.integers(1, min(mo, 3))), "n": draw(st.integers(1, 6)), "seed": draw(gen.seeds), "scale": draw(st.sampled_from([1.0, 0.5])), "beyond": draw(BEYOND)}


@st.composite
def tens_cases(draw):
    one = gen.basis_1d_spec()
    b1 = draw(one)
    b2 = draw(st.one_of(st.none(), one))
    return {"basis": {"kind": "tensor", "b1": b1, "b2": b2}, "dim": 2, "order": draw(st.integers(1, 2)), "n": draw(st.integers(1, 6)), "seed": draw(gen.seeds), "scale": draw(st.sampled_from([1.0, 0.5])), "beyond": draw(BEYOND)}


def check_tensor(case):
    spec, order = case["basis"], case["order"]
    fit, X, lo, hi = points(case, spec, 2, case["n"])
    brs = [gen.breakpoints(s, lo, hi) for s in (spec["b1"], spec["b2"] or spec["b1"])]
    lo, hi = lo * case.get("beyond", 1.0), hi * case.get("beyond", 1.0)
    for d in range(2):
        X[:, d] = away(X[:, d], brs[d], lo, hi)
    if any(s["kind"] == "splinefct" and s["k"] < order for s in (spec["b1"], spec["b2"] or spec["b1"])):
        return {"nontrivial": False, "labels": ["skip"]}
    b = gen.build(spec).fit(fit.copy())
    low = b.basis if order == 1 else (lambda Y: b.deriv(Y))
    D = b.deriv(X, deriv_order=order)
    want = np.stack([fd(low, X, d) for d in range(2)], axis=-1)
    scale = col_scale(low, want, lo, hi, 2)
    close(D, want, "deriv order %d" % order, rtol=2e-7, scale=scale)
    if order == 2:
        H2 = b.hessian(X)
        close(H2, D, "hessian", rtol=1e-12, scale=scale)
        close(np.swapaxes(H2, -1, -2), H2, "hessian symmetry", rtol=1e-12, scale=scale)
    return {"nontrivial": True, "labels": [spec["b1"]["kind"], "order%d" % order, "b2none" if spec["b2"] is None else "b2"]}


PROPERTY = Property(
    "C01",
    "random basis of every family (constant kept or removed, periodic or not), dimension 1-3, derivative order up to 4, random points away from the knots; deriv/hessian compared with fourth order finite differences of basis()/the lower derivative. Non-trivial: the derivative is not identically zero.",
    [SubCheck("basis", cases, check_1d, 4000), SubCheck("combined", comb_cases, check_1d, 1200), SubCheck("tensor", tens_cases, check_tensor, 1200)],
    assumptions=["points closer than 6e-4 to a knot or boundary are not sampled", "tolerance 2e-7 of the largest value of the same function"],
)
