"""C23: generated noises have the requested covariance."""
import numpy as np
import scipy.linalg
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen
from ..core import Property, SubCheck, Violation, close, require, rng_of


TOL = 0.004  # of the variance: the tails of the filter are cut


class Draws:
    """A source of white noise whose n-th number is 1 and all the others 0: shows the linear filter column by column."""

    def __init__(self, k):
        self.k, self.count = k, 0

    def __call__(self, loc=0.0, scale=1.0, size=None):
        shape = () if size is None else size
        n = int(np.prod(shape))
        z = np.zeros(n)
        if 0 <= self.k - self.count < n:
            z[self.k - self.count] = 1.0
        self.count += n
        return (loc + scale * z).reshape(shape)


def filter_matrix(make, size):
    """(noise component, white number): response to each number drawn; make(rng) -> generator"""
    src = Draws(-1)
    zero = np.asarray(make(src).generate(size) if size is not None else make(src).generate())
    require(np.all(zero == 0.0), "noise without any white noise: %s", np.abs(zero).max())
    n = src.count
    cols = []
    for k in range(n):
        g = make(Draws(k))
        cols.append(np.asarray(g.generate(size) if size is not None else g.generate()).copy())
    return np.stack(cols, axis=-1)


def cov_kernel(case, rng, n, dt):
    """Positive definite correlation functions that have decayed at the end of the window"""
    t = np.arange(n) * dt
    T = n * dt
    if case["shape"] == "gauss":
        w = T * rng.uniform(0.08, 0.12)
        return rng.uniform(0.3, 3.0) * np.exp(-0.5 * (t / w) ** 2)
    k = np.zeros(n)
    for _ in range(2):
        tau = T * rng.uniform(0.03, 0.09)
        k += rng.uniform(0.2, 2.0) * np.exp(-t / tau)
    if case["shape"] == "osc":
        k *= np.cos(t / T * rng.uniform(2.0, 9.0))
    return k


def check_coloured(case):
    import VolterraBasis.gle_integrate as gi

    rng = rng_of(case["seed"], 23)
    L, dt, dim = case["L"], case["dt"], case["dim"]
    t = np.arange(L) * dt
    ker = 0.1 * rng.normal(size=(L, dim, dim))  # only the diagonal counts
    for d in range(dim):
        ker[:, d, d] = cov_kernel(case, rng, L, dt)
    keep = ker.copy()

    def make(src):
        return gi.ColoredNoiseGenerator(ker, t, rng=src)

    size = case["size"]
    F = filter_matrix(make, size)
    require(F.shape[:2] == (size, dim), "noise of shape %s", F.shape[:2])
    require(np.array_equal(ker, keep), "the kernel has been modified")
    frames = np.arange(size)
    lag = np.abs(frames[:, None] - frames[None, :])
    for d in range(dim):
        C = F[:, d] @ F[:, d].T
        want = np.where(lag < L, ker[np.minimum(lag, L - 1), d, d], 0.0)
        close(C, want, "covariance of component %d" % d, rtol=TOL, scale=ker[0, d, d])
        for e in range(d):
            close(F[:, d] @ F[:, e].T, np.zeros((size, size)), "covariance of components %d and %d" % (e, d), atol=1e-12 * np.abs(ker).max())
    # the noise is linear in the white noise, drawn anew at each call
    src = rng_of(case["seed"], 24)
    ng = gi.ColoredNoiseGenerator(ker, t, rng=src.normal)
    a = ng.generate(size)
    b = ng.generate(size)
    again = gi.ColoredNoiseGenerator(ker, t, rng=rng_of(case["seed"], 24).normal)
    require(np.array_equal(again.generate(size), a) and not np.array_equal(a, b), "the noise does not follow the given source of random numbers")
    w = rng_of(case["seed"], 24).normal(size=F.shape[2])
    close(a, F @ w, "noise against its filter", rtol=1e-9)
    for s in (1, L // 2, 2 * L - 1):
        require(gi.ColoredNoiseGenerator(ker, t).generate(s).shape == (s, dim), "%d frames of noise asked", s)
    return {"nontrivial": True, "labels": ["dim%d" % dim, case["shape"], "short" if size < 2 * L - 1 else "long"]}


def check_kl(case):
    rng = rng_of(case["seed"], 25)
    N = case["N"]
    if case["how"] == "stationary":
        k = cov_kernel(case, rng, N, case["dt"])
        C = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(k)
        close(C, scipy.linalg.toeplitz(k), "covariance matrix of a stationary noise", rtol=1e-14)
    elif case["how"] == "backward":
        k, kb = rng.normal(size=N), rng.normal(size=N - 1)
        C = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(k, backward_kernel=kb)
        close(C, scipy.linalg.toeplitz(k, np.concatenate((k[:1], kb[::-1]))), "covariance matrix with a backward kernel", rtol=1e-14)
        return {"nontrivial": N > 1, "labels": ["backward"]}
    else:
        M = rng.normal(size=(N, case["rank"]))
        C = M @ M.T
    w = np.linalg.eigvalsh(C)
    keep = C.copy()

    def make(s):
        return vb.KarhunenLoeveNoiseGenerator(C, case["dt"], rng=s)

    size = None if case["size"] is None else max(1, int(round(case["size"] * N)))
    F = filter_matrix(make, size)
    n = N if size is None else size
    require(F.shape[0] == n and F.ndim == 2, "noise of shape %s, %d frames asked", F.shape[:-1], n)
    slack = 1e-10 * np.abs(w).max() + 2 * max(0.0, -w.min())  # a slightly negative spectrum cannot be a covariance
    close(F @ F.T, C[:n, :n], "covariance of the noise", atol=slack)
    require(np.array_equal(C, keep), "the covariance has been modified")
    try:
        make(Draws(-1)).generate(N + case["over"])
    except ValueError:
        pass
    else:
        raise Violation("%d frames of noise generated from a covariance of %d frames" % (N + case["over"], N))
    z = vb.KarhunenLoeveNoiseGenerator(C, case["dt"], rng=rng_of(case["seed"], 26).normal).generate()
    W = rng_of(case["seed"], 26).normal(size=N)
    if size is None:
        close(z, F @ W, "noise against its filter", rtol=1e-9, atol=1e-9)
    return {"nontrivial": N > 2, "labels": [case["how"], "part" if n < N else "full", "singular" if case["how"] == "general" and case["rank"] < N else "regular"]}


@st.composite
def col_cases(draw):
    return {"L": draw(st.integers(20, 60)), "dt": draw(st.sampled_from([0.1, 0.01, 0.5])), "dim": draw(st.integers(1, 3)), "shape": draw(st.sampled_from(["exp", "gauss", "osc"])), "size": draw(st.one_of(st.integers(1, 40), st.integers(1, 140))), "seed": draw(gen.seeds)}


@st.composite
def kl_cases(draw):
    N = draw(st.one_of(*[st.integers(2, 40)] * 12, st.integers(50, 130)))
    return {"N": N, "rank": draw(st.integers(1, N + 3)), "dt": draw(st.sampled_from([0.1, 0.01, 0.5])), "how": draw(st.sampled_from(["stationary", "general", "general", "backward"])), "shape": draw(st.sampled_from(["exp", "gauss", "osc"])), "size": draw(st.one_of(st.none(), st.floats(0, 1))), "over": draw(st.integers(1, 5)), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C23",
    "random positive definite correlation functions (sums of exponentials, Gaussian, oscillating) and random covariance matrices (stationary, general, rank deficient, with a backward kernel); the generators are fed with unit vectors instead of random numbers, which gives the exact linear filter F, and F F^T is compared with the requested covariance. Non-trivial: more than two frames.",
    [SubCheck("coloured", col_cases, check_coloured, 120), SubCheck("karhunen", kl_cases, check_kl, 800)],
    assumptions=["coloured noise: kernels that have decayed at the end of their window, within 0.4% of the variance", "the noise is linear in the numbers drawn from the given source"],
)
