"""C05: composite bases: tensor products and concatenations of bases."""
import numpy as np
import scipy.stats
from hypothesis import strategies as st

import VolterraBasis.basis as bf

from .. import gen
from ..core import Property, SubCheck, Violation, close, require, rng_of


def data(case, dim, n):
    rng = rng_of(case["seed"], 4)
    # each coordinate has its own range
    lo = np.array([-2.0, 0.5, -1.0])[:dim]
    hi = np.array([2.0, 3.0, 0.0])[:dim]
    fit = rng.uniform(lo, hi, size=(30, dim))
    fit[0], fit[1] = lo, hi
    return fit, rng.uniform(lo, hi, size=(n, dim))


def nd(spec, order):
    if spec["kind"] == "combine":
        return all(nd(s, order) for s in spec["parts"])
    return not (spec["kind"] == "splinefct" and spec["k"] < order)


def check_tensor(case):
    s1, s2 = case["b1"], case["b2"]
    fit, X = data(case, 2, case["n"])
    b = gen.build({"kind": "tensor", "b1": s1, "b2": s2})
    desc = fit.copy() if case["fitwith"] == "array" else (scipy.stats.describe(fit) if case["fitwith"] == "scipy" else bf.minimal_describe(fit))
    if case["before"]:  # used before on other data: nothing of them is left
        b.fit(1.3 * fit[::-1] + 0.7)
        b.basis(X)
        if nd(s1, 1) and nd(s2 or s1, 1):
            b.deriv(X)
    r = b.fit(desc)
    require(r is b, "fit does not return the basis")
    one, two = gen.build(s1), gen.build(s2 or s1)
    one.const_removed = False
    two.const_removed = False
    one.fit(fit[:, :1].copy())
    two.fit(fit[:, 1:].copy())
    n1, n2 = gen.n_features(s1, 1), gen.n_features(s2 or s1, 1)
    require(b.n_output_features_ == n1 * n2, "n_output_features_")
    require(not b.const_removed, "constant removed in a tensor product")
    X0 = X.copy()
    B = b.basis(X)
    require(np.array_equal(X, X0), "points modified")
    require(B.shape == (len(X), n1 * n2), "shape %s", B.shape)
    f, g = one.basis(X[:, :1]), two.basis(X[:, 1:])
    sc = max(1.0, np.abs(B).max())
    D = b.deriv(X) if nd(s1, 1) and nd(s2 or s1, 1) else None
    H = b.hessian(X) if nd(s1, 2) and nd(s2 or s1, 2) else None
    if H is not None:
        df, dg = one.deriv(X[:, :1])[..., 0], two.deriv(X[:, 1:])[..., 0]
        hf, hg = one.hessian(X[:, :1])[..., 0, 0], two.hessian(X[:, 1:])[..., 0, 0]
        require(D.shape == (len(X), n1 * n2, 2) and H.shape == (len(X), n1 * n2, 2, 2), "shape of the derivatives")
    for i in range(n1):
        for j in range(n2):
            k = int(b.comb_indices(i, j))
            require(tuple(int(q) for q in b.split_index(k)) == (i, j), "split_index(comb_indices(%d,%d)) is %s", i, j, b.split_index(k))
            close(B[:, k], f[:, i] * g[:, j], "function (%d,%d)" % (i, j), rtol=1e-12, scale=sc)
            if H is not None:
                s2_ = max(1.0, np.abs(D).max())
                close(D[:, k, 0], df[:, i] * g[:, j], "d/dx of (%d,%d)" % (i, j), rtol=1e-12, scale=s2_)
                close(D[:, k, 1], f[:, i] * dg[:, j], "d/dy of (%d,%d)" % (i, j), rtol=1e-12, scale=s2_)
                s3 = max(1.0, np.abs(H).max())
                close(H[:, k, 0, 0], hf[:, i] * g[:, j], "d2/dx2", rtol=1e-12, scale=s3)
                close(H[:, k, 1, 1], f[:, i] * hg[:, j], "d2/dy2", rtol=1e-12, scale=s3)
                close(H[:, k, 0, 1], df[:, i] * dg[:, j], "d2/dxdy", rtol=1e-12, scale=s3)
                close(H[:, k, 1, 0], df[:, i] * dg[:, j], "d2/dydx", rtol=1e-12, scale=s3)
    idx = sorted(int(b.comb_indices(i, j)) for i in range(n1) for j in range(n2))
    require(idx == list(range(n1 * n2)), "comb_indices is not a bijection")
    for f, args in ((b.comb_indices, (n1, 0)), (b.comb_indices, (0, n2)), (b.split_index, (n1 * n2,))):
        try:
            got = f(*args)
        except ValueError:
            continue
        raise Violation("%s%s of a basis of %dx%d functions is %s" % (f.__name__, args, n1, n2, got))
    for bad in (fit[:, :1], np.concatenate((fit, fit[:, :1]), axis=1)):
        try:
            gen.build({"kind": "tensor", "b1": s1, "b2": s2}).fit(bad)
        except ValueError:
            continue
        raise Violation("tensor product accepted data of dimension %d" % bad.shape[1])
    return {"nontrivial": n1 > 1 and n2 > 1, "labels": [s1["kind"], "same" if s2 is None else s2["kind"], case["fitwith"]]}


@st.composite
def tens(draw):
    one = gen.basis_1d_spec()
    if draw(st.integers(0, 5)) == 3:  # a factor may itself be a combination
        one = st.fixed_dictionaries({"kind": st.just("combine"), "parts": st.lists(one, min_size=1, max_size=2)})
    return {"b1": draw(one), "b2": draw(st.one_of(st.none(), one)), "n": draw(st.integers(1, 10)), "before": draw(st.integers(0, 3)) == 1, "seed": draw(gen.seeds), "fitwith": draw(st.sampled_from(["array", "scipy", "minimal"]))}


def check_comb(case):
    dim, parts = case["dim"], case["parts"]
    fit, X = data(case, dim, case["n"])
    c = bf.FeaturesCombiner(*[gen.build(s) for s in parts])
    ref = [gen.build(s) for s in parts]
    before = bool(c.const_removed)
    require(before == any(r.const_removed for r in ref), "const_removed of a combination is %s", before)
    if case["before"]:
        c.fit(1.3 * fit[::-1] + 0.7)
        c.basis(X)
    r = c.fit(fit.copy())
    require(r is c, "fit does not return the basis")
    for s in ref:
        s.fit(fit.copy())
    require(c.n_output_features_ == sum(gen.n_features(s, dim) for s in parts), "n_output_features_ %s", c.n_output_features_)

    def same(tag):
        B = c.basis(X)
        close(B, np.concatenate([s.basis(X) for s in ref], axis=1), tag + " basis", rtol=1e-13, scale=max(1.0, np.abs(B).max()))
        for o in (1, 2):
            if not all(nd(s, o) for s in parts):
                continue
            D = c.deriv(X, deriv_order=o)
            close(D, np.concatenate([s.deriv(X, deriv_order=o) for s in ref], axis=1), tag + " deriv %d" % o, rtol=1e-13, scale=max(1.0, np.abs(D).max()))
            if o == 2:
                close(c.hessian(X), D, tag + " hessian", rtol=1e-13, scale=max(1.0, np.abs(D).max()))

    X0 = X.copy()
    same("combined")
    require(np.array_equal(X, X0), "points modified")
    # asking to keep the constant reaches every member, the number of derivatives follows
    c.const_removed = False
    for s in ref:
        s.const_removed = False
    require(not c.const_removed, "const_removed cannot be unset")
    same("with the constant kept,")
    require(c.deriv(X).shape[1] == c.n_output_features_ or not all(nd(s, 1) for s in parts), "constant kept but deriv has %d functions of %d", c.deriv(X).shape[1], c.n_output_features_)
    return {"nontrivial": len(parts) > 1, "labels": ["parts%d" % len(parts), "dim%d" % dim, "rc%s" % before]}


@st.composite
def comb(draw):
    dim = draw(st.integers(1, 3))
    one = gen.basis_1d_spec() if dim == 1 else gen.basis_nd_spec()
    if draw(st.integers(0, 3)) == 2:  # a member may itself be a combination
        one = st.one_of(one, st.fixed_dictionaries({"kind": st.just("combine"), "parts": st.lists(one, min_size=1, max_size=3)}))
    return {"parts": draw(st.lists(one, min_size=1, max_size=5)), "dim": dim, "n": draw(st.integers(1, 10)), "before": draw(st.integers(0, 3)) == 1, "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C05",
    "random pairs (or one) of 1D bases for the tensor product with a different range on each coordinate, random lists of 1-5 bases for the combination; compared with the product / concatenation of separately fitted members. Non-trivial: both factors have two functions or more / at least two members.",
    [SubCheck("tensor", tens, check_tensor, 1300), SubCheck("combine", comb, check_comb, 1300)],
)
