"""C09: correlation functions equal their definition, by FFT or directly."""
import numpy as np
from hypothesis import strategies as st

import VolterraBasis as vb
from VolterraBasis import correlation as co

from .. import gen
from ..core import Property, SubCheck, close, require, rng_of


def series(rng, shape, kind):
    a = rng.normal(size=shape)
    if kind == "offset":
        a = a + 5.0
    elif kind == "walk":
        a = np.cumsum(a, axis=-1) * 0.3
    elif kind == "sparse":
        a = np.where(rng.random(size=shape) < 0.8, 0.0, a)
    elif kind == "int":
        a = np.round(3 * a)
    return a


def corr(a, b, n):
    """<a(t) b(t+n)> by its definition."""
    T = a.shape[-1]
    return sum(a[t] * b[t + n] for t in range(T - n)) / (T - n)


def want_1d(a, b, L):
    return np.array([float(np.dot(a[: len(a) - n], b[n:])) / (len(a) - n) for n in range(L)])


def check(case):
    rng = rng_of(case["seed"], 1)
    T, tr = case["T"], case["trunc"]
    L = T if tr is None else min(T, tr)
    ka, kb = case["na"], case["nb"]
    a = series(rng, (ka, T), case["kind"])
    b = None if case["auto"] else series(rng, (kb, T), case["kind"])
    bb = a if b is None else b
    sc = np.sqrt((a**2).mean(axis=-1).max() * (bb**2).mean(axis=-1).max()) + 1e-300
    # unnormalised lags: the rounding of the FFT is divided by T - n
    scale = sc * T / (T - np.arange(L))
    a0, b0 = a.copy(), bb.copy()
    fns = {"fft": (vb.correlation_fft, co.correlation_1D), "direct": (vb.correlation_direct, co.correlation_direct_1D)}
    for name, (nd, one) in fns.items():
        # one dimensional series
        if b is None:
            close(one(a[0], trunc=tr), want_1d(a[0], a[0], L), name + " 1D auto", rtol=1e-10, scale=scale)
        else:
            close(one(a[0], b[0], trunc=tr), want_1d(a[0], b[0], L), name + " 1D", rtol=1e-10, scale=scale)
        # several series
        if b is None:
            want = np.array([[want_1d(a[j], a[i], L) for j in range(ka)] for i in range(ka)])
            got = nd(a, trunc=tr) if tr is not None else nd(a)
            close(got, want, name + " ND auto", rtol=1e-10, scale=scale)
            # at zero lag the matrix is symmetric and the diagonal is the mean square
            close(got[:, :, 0], got[:, :, 0].T, name + " symmetry", rtol=1e-10, scale=sc)
        else:
            # as in the estimator: broadcast (ka,1,T) against (kb,T)
            want = np.array([[want_1d(a[i], b[j], L) for j in range(kb)] for i in range(ka)])
            got = nd(a[:, None, :], b, trunc=tr)
            close(got, want, name + " ND cross", rtol=1e-10, scale=scale)
            if ka == kb:  # one pair of series per row: the estimators broadcast the same way
                got = nd(a[:, None, :], b[None, :, :].repeat(ka, axis=0), trunc=tr)
                close(got, want, name + " ND broadcast", rtol=1e-10, scale=scale)
    require(np.array_equal(a, a0) and np.array_equal(bb, b0), "inputs modified")
    # arrays that are used again with other numbers, results overwritten
    perm = rng.permutation(T)
    scale = ((a[0] ** 2).mean() + 1e-300) * T / (T - np.arange(L))
    for name, (nd, one) in fns.items():
        z = a[0].copy()
        one(z, trunc=tr)[...] = -7.0
        close(one(z, trunc=tr), want_1d(a[0], a[0], L), name + " again", rtol=1e-10, scale=scale)
        z[:] = a[0][perm]
        close(one(z, trunc=tr), want_1d(a[0][perm], a[0][perm], L), name + " of an array whose numbers have changed", rtol=1e-10, scale=scale)
        # not contiguous: every second number of a longer array, reversed
        w = np.repeat(a[0], 2)[::2]
        close(one(w[::-1], trunc=tr), want_1d(a[0][::-1], a[0][::-1], L), name + " of a reversed view", rtol=1e-10, scale=scale)
    return {"nontrivial": T > 2 and L > 1, "labels": ["auto" if b is None else "cross", case["kind"], "trunc" if tr is not None and tr < T else "full", "pow2" if T & (T - 1) == 0 else "T"]}


@st.composite
def cases(draw):
    T = draw(st.one_of(st.integers(1, 70), st.sampled_from([2, 4, 8, 16, 32, 33, 63, 64, 65, 128, 127, 129, 200, 257, 512, 1025])))
    return {"T": T, "trunc": draw(st.one_of(st.none(), st.integers(1, T + 5), st.integers(1, min(T, 40) + 5))), "na": draw(st.integers(1, 4)), "nb": draw(st.integers(1, 4)), "auto": draw(st.booleans()), "kind": draw(st.sampled_from(["normal", "offset", "walk", "sparse", "int"])), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C09",
    "random sets of series of any length (powers of two and their neighbours included), any truncation; FFT and direct, one or several series, auto and cross correlations compared with the defining sum. Non-trivial: more than two samples and more than one lag.",
    [SubCheck("definition", cases, check, 2500)],
    assumptions=["both series have the same length"],
)
