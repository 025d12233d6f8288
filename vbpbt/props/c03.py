"""C03: basis() evaluates the documented functions, point by point, in the documented layout."""
import numpy as np
import scipy.special as sp
import scipy.stats
from hypothesis import strategies as st

import VolterraBasis.basis as bf

from .. import gen
from ..core import Property, SubCheck, close, require, rng_of

EVAL = {
    "Polynomial": lambda n, x: x**n,
    "Chebyshev": sp.eval_chebyt,
    "Legendre": sp.eval_legendre,
    "Hermite": sp.eval_hermite,
    "HermiteE": sp.eval_hermitenorm,
    "Laguerre": sp.eval_laguerre,
}


def deboor(t, i, k, x, last):
    """Cox-de Boor recursion, intervals half open to the right, the last one closed."""
    if k == 0:
        inside = (t[i] <= x) & (x < t[i + 1])
        if t[i + 1] == last and t[i] < t[i + 1]:
            inside = inside | (x == last)
        return inside.astype(float)
    r = np.zeros_like(x)
    if t[i + k] > t[i]:
        r = r + (x - t[i]) / (t[i + k] - t[i]) * deboor(t, i, k - 1, x, last)
    if t[i + k + 1] > t[i + 1]:
        r = r + (t[i + k + 1] - x) / (t[i + k + 1] - t[i + 1]) * deboor(t, i + 1, k - 1, x, last)
    return r


def open_knots(pts, k):
    """Knots of the interpolating spline of degree k on the given points (not-a-knot)."""
    n = len(pts)
    if k % 2:
        inner = pts[(k + 1) // 2 : n - (k + 1) // 2]
    else:
        mid = 0.5 * (pts[1:] + pts[:-1])
        inner = mid[k // 2 : n - 1 - k // 2]
    return np.concatenate((np.full(k + 1, pts[0]), inner, np.full(k + 1, pts[-1])))


def clipped(f, u):
    return np.where(u < 0, 1.0, np.where(u > 1, 0.0, f(np.clip(u, 0, 1))))


BOUND = {
    "tricube": lambda u: (1 - u**3) ** 3,
    "triweight": lambda u: (1 - u**2) ** 3,
    "quartic": lambda u: (1 - u**2) ** 2,
    "user": lambda u: gen.user_boundary(u),
}


def reference(spec, X, mean, lo, hi):
    """What basis() should return, computed without the library."""
    dim = X.shape[1]
    k = spec["kind"]
    if k == "linear":
        return X - mean if spec["center"] else X.copy()
    if k == "poly":
        return np.concatenate([EVAL[spec["fam"]](n, X) for n in range(spec["deg"] + 1)], axis=1)
    if k == "fourier":
        w = spec["freq"]
        cols = [np.full_like(X, 1 / np.sqrt(2 * np.pi))]
        for m in range(1, spec["order"] + 1):
            cols += [np.sin(m * w * X) / np.sqrt(np.pi), np.cos(m * w * X) / np.sqrt(np.pi)]
        return np.concatenate(cols, axis=1)
    if k == "splinefct":
        t, c = gen.splinefct_data(spec)
        return sum(c[i] * deboor(t, i, spec["k"], X, t[-1]) for i in range(len(c)))
    if k == "bspline":
        x = X[:, 0]
        pts = np.linspace(lo, hi, spec["n_knots"])
        kk = spec["k"]
        if not spec["per"]:
            t = open_knots(pts, kk)
            return np.stack([deboor(t, i, kk, x, t[-1]) for i in range(spec["n_knots"])], axis=1)
        raise ValueError("see periodic_reference")
    if k == "indicator":
        x = X[:, 0]
        s = [clipped(BOUND[spec["type"]], (x - min(b)) / (max(b) - min(b))) for b in spec["bounds"]]
        f = [s[0]] + [s[i] - s[i - 1] for i in range(1, len(s))]
        if spec["per"]:
            f[0] = s[0] + (1 - s[-1])
        else:
            f.append(1 - s[-1])
        return np.stack(f, axis=1)
    if k == "combine":
        return np.concatenate([reference(s, X, mean, lo, hi) for s in spec["parts"]], axis=1)
    raise ValueError(k)


def periodic_reference(spec, x, lo, hi):
    """Periodic B-splines: wrapped cardinal splines on the uniform grid, one per grid interval."""
    n, k = spec["n_knots"] - 1, spec["k"]
    h = (hi - lo) / n
    t = np.arange(k + 2) * h
    cols = []
    for j in range(n):
        tot = np.zeros_like(x)
        for m in range(-k - 3, k + 4):
            tot += deboor(t, 0, k, x - lo - j * h + m * (hi - lo), np.nan)
        cols.append(tot)
    return np.stack(cols, axis=1)


def make(case):
    dim = case["dim"]
    rng = rng_of(case["seed"], 3)
    lo, hi = case["box"]
    fit = rng.uniform(lo, hi, size=(30, dim))
    fit[0], fit[1] = lo, hi
    X = rng.uniform(lo, hi, size=(case["n"], dim))
    if case["special"] and case["n"] >= 3:  # end points, boundaries and knots
        X[0], X[1] = lo, hi
        br = gen.breakpoints(case["basis"], lo, hi)
        br = br[(br >= lo) & (br <= hi)]
        if len(br):
            X[2] = br[int(rng.integers(len(br)))]
    return fit, X, lo, hi


def check(case):
    spec, dim = case["basis"], case["dim"]
    fit, X, lo, hi = make(case)
    b = gen.build(spec)
    desc = {"array": lambda: fit.copy(), "scipy": lambda: scipy.stats.describe(fit), "minimal": lambda: bf.minimal_describe(fit)}[case["fitwith"]]()
    if case["before"]:  # used before on other data: nothing of them is left
        rng = rng_of(case["seed"], 11)
        od = dim
        if case["before"] == "dim" and gen.any_dim(spec):
            od = dim % 3 + 1
        other = rng.uniform(lo + 1.5, hi + 4.0, size=(12, od))
        b.fit(other)
        for f in (b.basis, b.deriv, b.hessian):
            if not (f == b.hessian and spec["kind"] == "splinefct" and spec["k"] < 2):
                f(np.resize(other, (case["n"], od)))
    r = b.fit(desc)
    require(r is b, "fit does not return the basis")
    require(b.n_output_features_ == gen.n_features(spec, dim), "n_output_features_ %s, documented %s", b.n_output_features_, gen.n_features(spec, dim))
    Xc = np.asfortranarray(X) if case["fortran"] else X.copy()
    X0 = Xc.copy()
    B = b.basis(Xc)
    require(np.array_equal(Xc, X0), "basis() modified the points")
    require(B.shape == (len(X), gen.n_features(spec, dim)), "shape %s", B.shape)
    if spec["kind"] == "bspline" and spec["per"]:
        k, n = spec["k"], spec["n_knots"] - 1
        ref = periodic_reference(spec, X[:, 0], lo, hi)
        if k % 2:  # knots on the grid (FITPACK places those of even degree elsewhere): same functions up to a rotation of the labels
            best = min((np.abs(np.roll(ref, s, axis=1) - B).max(), s) for s in range(n))
            require(best[0] < 1e-9, "periodic B-splines differ from the wrapped cardinal splines by %.3g", best[0])
        want = None
    else:
        want = reference(spec, X, fit.mean(axis=0), lo, hi)
        grid = np.repeat(np.linspace(lo, hi, 33)[:, None], dim, axis=1)
        big = np.maximum(np.abs(want).max(axis=0), np.abs(reference(spec, grid, fit.mean(axis=0), lo, hi)).max(axis=0))
        close(B, want, "basis", rtol=1e-10, scale=np.maximum(1.0, big)[None, :])
    # each row depends on its own point only
    perm = rng_of(case["seed"], 9).permutation(len(X))
    close(b.basis(X[perm]), B[perm], "rows follow the points", rtol=1e-13, scale=max(1.0, np.abs(B).max()))
    close(b.basis(X[:1]), B[:1], "single point", rtol=1e-13, scale=max(1.0, np.abs(B).max()))
    for f in (b.deriv, b.hessian):
        if spec["kind"] == "splinefct" and spec["k"] < 2:
            break
        Y = X.copy()
        D = f(Y)
        require(np.array_equal(Y, X), "%s modified the points", f.__name__)
        close(f(X[perm]), D[perm], "rows of " + f.__name__, rtol=1e-13, scale=max(1.0, np.abs(D).max()))
    # an array that is used again with other numbers, a result that is overwritten
    for f in [b.basis] + ([] if spec["kind"] == "splinefct" and spec["k"] < 2 else [b.deriv, b.hessian]):
        Z = X.copy()
        first = np.array(f(Z))
        f(Z)[...] = -7.0
        require(np.array_equal(f(Z), first), "%s at the same points after its result has been overwritten", f.__name__)
        Z[:] = X[perm]
        close(f(Z), first[perm], "%s at an array whose numbers have changed" % f.__name__, rtol=1e-13, scale=max(1.0, np.abs(first).max()))
    # the coordinates are not mixed: column n*dim+d depends on coordinate d only
    if dim > 1:
        for d in range(dim):
            Y = X.copy()
            Y[:, d] = X[perm, d]
            By = b.basis(Y)
            off = [j for j in range(B.shape[1]) if j % dim != d]
            close(By[:, off], B[:, off], "columns of the other coordinates", rtol=1e-13, scale=max(1.0, np.abs(B).max()))
    # refitting on the same data changes nothing
    close(b.fit(desc).basis(X), B, "after a second fit", rtol=1e-13, scale=max(1.0, np.abs(B).max()))
    return {"nontrivial": len(X) > 1, "labels": [spec["kind"], "dim%d" % dim, case["fitwith"], "special" if case["special"] else "generic"] + (["per"] if spec.get("per") else []) + (["refitted"] if case["before"] else [])}


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([1, 1, 1, 2, 3]))
    spec = draw(gen.basis_1d_spec() if dim == 1 else gen.basis_nd_spec())
    return {
        "basis": spec,
        "dim": dim,
        "n": draw(st.integers(1, 20)),
        "seed": draw(gen.seeds),
        "box": draw(st.sampled_from([[-2.0, 2.0], [-1.0, 1.0], [0.0, 3.0], [-3.0, -0.5]])),
        "special": draw(st.booleans()),
        "fortran": draw(st.booleans()),
        "fitwith": draw(st.sampled_from(["array", "scipy", "minimal"])),
        "before": draw(st.sampled_from(["", "", "", "other", "dim"])),
    }


def check_knots(case):
    """B-splines on knots given by the user."""
    rng = rng_of(case["seed"], 6)
    lo, hi = case["box"]
    n, k = case["n_knots"], case["k"]
    gaps = rng.uniform(0.3, 1.0, size=n - 1)
    pts = lo + (hi - lo) * np.concatenate(([0.0], np.cumsum(gaps) / gaps.sum()))
    pts[-1] = hi
    fit = rng.uniform(lo - 1, hi + 1, size=(20, 1))
    X = np.concatenate((rng.uniform(lo, hi, size=(case["n"], 1)), [[lo], [hi]], pts[:, None]))
    b = bf.BSplineFeatures(n_knots=case["announced"], k=k, periodic=case["per"], remove_const=case["rc"])
    kn = pts.copy()
    b.fit(fit.copy() if case["fitwith"] == "array" else bf.minimal_describe(fit), knots=kn if case["flat"] else kn[:, None])
    require(np.array_equal(kn, pts), "knots modified")
    m = n - 1 if case["per"] else n
    require(b.n_output_features_ == m, "%s functions announced for %d knots", b.n_output_features_, n)
    B = b.basis(X)
    require(B.shape == (len(X), m), "shape %s", B.shape)
    close(B.sum(axis=1), np.ones(len(X)), "partition of unity on given knots", rtol=1e-9)
    require(B.min() > -1e-9, "negative B-spline %g", B.min())
    if case["per"]:
        close(b.basis(np.array([[lo]])), b.basis(np.array([[hi]])), "both ends of the period", rtol=1e-8, scale=1.0)
        close(b.basis(X + (hi - lo) * 0.0), B, "second evaluation", rtol=1e-13, scale=1.0)
    else:
        t = open_knots(pts, k)
        close(B, np.stack([deboor(t, i, k, X[:, 0], t[-1]) for i in range(n)], axis=1), "B-splines on the given knots", rtol=1e-9, scale=1.0)
    require(b.deriv(X).shape == (len(X), m - int(case["rc"]), 1), "shape of the derivative %s", b.deriv(X).shape)
    return {"nontrivial": n > k + 1, "labels": ["per%s" % case["per"], "k%d" % k]}


@st.composite
def knots_cases(draw):
    k = draw(st.integers(1, 5))
    per = draw(st.booleans())
    n = draw(st.integers(k + 1 + (1 if per else 0), k + 9))
    return {"k": k, "per": per, "n_knots": n, "announced": draw(st.sampled_from([n, 5])), "rc": draw(st.booleans()), "n": draw(st.integers(1, 20)), "seed": draw(gen.seeds), "flat": draw(st.booleans()), "fitwith": draw(st.sampled_from(["array", "minimal"])), "box": draw(st.sampled_from([[-2.0, 2.0], [0.0, 3.0], [10.0, 30.0]]))}


@st.composite
def describe_cases(draw):
    return {"dim": draw(st.integers(1, 3)), "lens": draw(st.lists(st.one_of(*[st.integers(1, 30)] * 6, st.sampled_from([1000, 7000, 40000])), min_size=1, max_size=5) if draw(st.integers(0, 9)) else st.lists(st.integers(1, 30), min_size=9, max_size=30)), "seed": draw(gen.seeds), "fn": draw(st.sampled_from(["minimal", "scipy"]))}


def check_describe(case):
    """The descriptions the bases are fitted with: number, range and mean of all the points, however they are split."""
    rng = rng_of(case["seed"], 5)
    if case["fn"] == "scipy":
        case = dict(case, lens=[max(2, n) for n in case["lens"]])
    parts = [rng.normal(size=(n, case["dim"])) * 3 + 1 for n in case["lens"]]
    fn = bf.minimal_describe if case["fn"] == "minimal" else scipy.stats.describe
    d = fn(parts[0])
    for p in parts[1:]:
        d = bf.sum_describe(d, fn(p))
    al = np.concatenate(parts)
    require(d.nobs == len(al), "nobs")
    close(d.minmax[0], al.min(axis=0), "min", rtol=1e-14)
    close(d.minmax[1], al.max(axis=0), "max", rtol=1e-14)
    close(d.mean, al.mean(axis=0), "mean", rtol=1e-12, atol=1e-12)
    q = bf.quick_describe(al)
    require(q.nobs == len(al) and q.mean.shape == (case["dim"],), "quick_describe")
    require(bf.describe_from_dim(case["dim"]).mean.shape == (case["dim"],), "describe_from_dim")
    return {"nontrivial": len(parts) > 1, "labels": ["parts%d" % len(parts)]}


def end_piece(f, a, b, k, x):
    """The polynomial of degree k that f is on [a, b], at x; and how much the errors are amplified there."""
    nodes = 0.5 * (a + b) + 0.49 * (b - a) * np.cos(np.pi * (np.arange(k + 1) + 0.5) / (k + 1))
    lag = np.ones((len(x), k + 1))
    for i in range(k + 1):
        for j in range(k + 1):
            if i != j:
                lag[:, i] *= (x - nodes[j]) / (nodes[i] - nodes[j])
    return lag @ f(nodes), np.abs(lag).sum(axis=1)


def check_outside(case):
    """Splines go on with their first and last pieces outside of the knots."""
    spec = case["basis"]
    rng = rng_of(case["seed"], 8)
    lo, hi = case["box"] if spec["kind"] == "bspline" else (spec["lo"], spec["hi"])
    fit = np.concatenate(([[lo], [hi]], rng.uniform(lo, hi, size=(10, 1))))
    b = gen.build(spec).fit(fit.copy())
    t = open_knots(np.linspace(lo, hi, spec["n_knots"]), spec["k"]) if spec["kind"] == "bspline" else gen.splinefct_data(spec)[0]
    t = np.unique(t)
    f = lambda x: reference(spec, np.asarray(x)[:, None], None, lo, hi)
    reach = 0.3 * (hi - lo)
    for a, c, x in ((t[0], t[1], lo - rng.uniform(0, reach, size=case["n"])), (t[-2], t[-1], hi + rng.uniform(0, reach, size=case["n"]))):
        want, amp = end_piece(f, a, c, spec["k"], x)
        if amp.max() > 1e6:
            return {"nontrivial": False, "labels": ["amplified"]}
        close(b.basis(x[:, None]), want, "continuation outside of the knots", rtol=1e-10, scale=amp[:, None] * max(1.0, np.abs(f(np.linspace(lo, hi, 40))).max()))
    return {"nontrivial": True, "labels": [spec["kind"], "k%d" % spec["k"]]}


@st.composite
def outside_cases(draw):
    return {"basis": draw(st.one_of(gen.splinefct_spec(), gen.bspline_spec(periodic=False))), "n": draw(st.integers(1, 12)), "seed": draw(gen.seeds), "box": draw(st.sampled_from([[-2.0, 2.0], [0.0, 3.0], [10.0, 30.0]]))}


PROPERTY = Property(
    "C03",
    "random basis, dimension 1-3, random points (range ends, knots and boundaries included), fitted from an array or a description, knots given or not; values compared with closed formulas (scipy.special polynomials, trigonometric formulas, Cox-de Boor recursion, clipped boundary functions), rows permuted, coordinates permuted, inputs compared after the call. Non-trivial: more than one point / more than one part.",
    [SubCheck("values", cases, check, 3000), SubCheck("knots", knots_cases, check_knots, 500), SubCheck("outside", outside_cases, check_outside, 400), SubCheck("describe", describe_cases, check_describe, 600)],
)
