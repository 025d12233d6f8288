"""C04: local bases: partition of unity, bounds, locality, smoothness and periodicity."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, SubCheck, close, require, rng_of


def check_bspline(case):
    spec = case["basis"]
    lo, hi = case["box"]
    rng = rng_of(case["seed"], 1)
    b = gen.build(spec).fit(np.array([[lo], [hi], [0.5 * (lo + hi)]]))
    k, n = spec["k"], spec["n_knots"] - (1 if spec["per"] else 0)
    x = np.concatenate((rng.uniform(lo, hi, size=case["n"]), np.linspace(lo, hi, spec["n_knots"]), gen.breakpoints(spec, lo, hi)))
    x = np.clip(x, lo, hi)[:, None]
    B = b.basis(x)
    require(B.shape == (len(x), n), "shape %s, expected %d functions", B.shape, n)
    close(B.sum(axis=1), np.ones(len(x)), "sum of the splines", rtol=1e-10)
    require(B.min() > -1e-12 and B.max() < 1 + 1e-12, "values outside [0,1]: %g %g", B.min(), B.max())
    require((np.abs(B) > 1e-12).sum(axis=1).max() <= k + 1, "%d splines of degree %d overlap", (np.abs(B) > 1e-12).sum(axis=1).max(), k)
    full = np.linalg.matrix_rank(b.basis(np.linspace(lo, hi, 12 * n + 20)[:, None]), tol=1e-9)
    require(full == n, "the %d splines span a space of dimension %d", n, full)
    # derivative of the constant is zero, removing the constant drops the last function only
    b.const_removed = False
    for o in range(1, min(k, 2) + 1):
        D = b.deriv(x, deriv_order=o)
        D = D.reshape(D.shape[:2])
        sc = max(1.0, np.abs(D).max())
        close(D.sum(axis=1), np.zeros(len(x)), "sum of the derivatives of order %d" % o, rtol=1e-9, scale=sc)
        b.const_removed = True
        D2 = b.deriv(x, deriv_order=o)
        b.const_removed = False
        close(D2.reshape(D2.shape[:2]), D[:, : n - 1], "derivatives with constant removed", rtol=1e-12, scale=sc)
    if spec["per"]:
        ends = np.array([[lo], [hi]])
        E = b.basis(ends)
        close(E[0], E[1], "values at both ends of the period", rtol=1e-9)
        for o in range(1, k):
            D = b.deriv(ends, deriv_order=o)
            close(D[0], D[1], "derivative %d at both ends of the period" % o, rtol=1e-8, scale=max(1.0, np.abs(b.deriv(x, deriv_order=o)).max()))
    return {"nontrivial": True, "labels": ["k%d" % k, "per" if spec["per"] else "open"]}


@st.composite
def bs_cases(draw):
    return {"basis": draw(gen.bspline_spec()), "box": draw(st.sampled_from([[-2.0, 2.0], [0.0, 1.0], [-3.0, -0.5], [10.0, 30.0]])), "n": draw(st.integers(1, 40)), "seed": draw(gen.seeds)}


def check_ind(case):
    spec = case["basis"]
    rng = rng_of(case["seed"], 2)
    b = gen.build(spec)
    br = gen.breakpoints(spec)
    lo, hi = br[0] - 1.0, br[-1] + 1.0
    x = np.concatenate((rng.uniform(lo, hi, size=case["n"]), br, [lo, hi]))[:, None]
    b.fit(x)
    nb = len(spec["bounds"])
    n = nb + (0 if spec["per"] else 1)
    B = b.basis(x)
    require(B.shape == (len(x), n), "shape %s, expected %d states", B.shape, n)
    close(B.sum(axis=1), np.ones(len(x)), "sum of the indicators", rtol=1e-12)
    require(B.min() >= -1e-14 and B.max() <= 1 + 1e-14, "values outside [0,1]")
    require((B > 1e-13).sum(axis=1).max() <= 2, "more than two states at one point")
    # inside a core the state is pure, and the states are numbered from left to right
    srt = [sorted(bb) for bb in spec["bounds"]]
    for j in range(nb + 1):
        a = srt[j - 1][1] if j > 0 else lo
        c = srt[j][0] if j < nb else hi
        if c > a:
            mid = np.array([[0.5 * (a + c)]])
            want = np.zeros((1, n))
            want[0, j % nb if spec["per"] else j] = 1.0
            close(b.basis(mid), want, "core of state %d" % j, rtol=1e-13)
            for o in (1, 2):
                close(b.deriv(mid, deriv_order=o), np.zeros((1, n) + (1,) * o), "derivative in the core of state %d" % j, atol=1e-13)
    # inside a boundary only the two neighbours, monotonous
    for j, (a, c) in enumerate(srt):
        u = np.linspace(a, c, 13)[:, None]
        Bu = b.basis(u)
        left, right = j, (j + 1) % nb if spec["per"] else j + 1
        if left == right:
            continue
        close(Bu[:, left] + Bu[:, right], np.ones(13), "boundary %d" % j, rtol=1e-12)
        require(np.all(np.diff(Bu[:, left]) <= 1e-12), "state %d does not decrease in its right boundary", left)
        close(Bu[0, left], 1.0, "start of boundary", rtol=1e-12)
        close(Bu[-1, right], 1.0, "end of boundary", rtol=1e-12)
    for o in (1, 2):
        D = b.deriv(x, deriv_order=o)
        close(D.sum(axis=1), np.zeros((len(x),) + (1,) * o), "sum of the derivatives %d" % o, rtol=1e-12, scale=max(1.0, np.abs(D).max()))
    # continuity: values at the two sides of every break point
    eps = 1e-9
    close(b.basis((br - eps)[:, None]), b.basis((br + eps)[:, None]), "continuity", atol=1e-6)
    return {"nontrivial": nb > 1, "labels": ["states%d" % nb, spec["type"], "per" if spec["per"] else "open"]}


@st.composite
def ind_cases(draw):
    return {"basis": draw(gen.indicator_spec(max_states=6, types=("tricube", "triweight", "quartic", "user"))), "n": draw(st.integers(1, 40)), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C04",
    "random B-spline bases (degree 1-5, open or periodic) and smooth indicator bases (1-6 boundaries in any inner order, every boundary function, open or periodic), random points plus all knots and ends; algebraic invariants of a partition of unity. Non-trivial: at least two states (indicators), every case (splines).",
    [SubCheck("bspline", bs_cases, check_bspline, 1500), SubCheck("indicator", ind_cases, check_ind, 1500)],
)
