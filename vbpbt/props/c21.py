"""C21: fluxes obtained from a solution of the Volterra equation, and Laplace transform of the kernel."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import gen
from ..core import Property, SubCheck, as_np, close, require, rng_of
from .c20 import model


def weights(method, n):
    """quadrature weights on n intervals, unit step; j = 0 is time 0 of the kernel"""
    w = np.ones(n + 1)
    if method == "rect":
        w[n] = 0.0
        return w
    if method == "trapz" or n == 1:
        w[0] = w[n] = 0.5
        return w
    w = np.zeros(n + 1)
    start = 0
    if n % 2 == 1:  # one trapezoidal interval first
        w[0] += 0.5
        w[1] += 0.5
        start = 1
    for j in range(start, n - 1, 2):
        w[j] += 1 / 3
        w[j + 1] += 4 / 3
        w[j + 2] += 1 / 3
    return w


def check(case):
    rng = rng_of(case["seed"], 22)
    K, n, nk, d, o, dt = case["K"], case["n"], case["nk"], case["d"], case["o"], case["dt"]
    square = case["own"]
    if square:
        d = K
    f = rng.normal(size=(K, d)) * (case["f"] != 0)
    ker = rng.normal(size=(nk, K, d))
    m = model(K, dt, rng.normal(size=(K, K)), rng.normal(size=(nk, K, K)))
    CK = rng.normal(size=(o, K, n))
    CF = CK if case["same"] else rng.normal(size=(o, K, n + case["nf"]))
    kw = {}
    if square:
        f, ker = as_np(m.force_coeff), as_np(m.kernel)
        if case["mix"] == "force":  # only one of them is given
            f = rng.normal(size=(K, K))
            kw["force_coeff"] = f.copy()
        elif case["mix"] == "kernel":
            ker = rng.normal(size=(nk, K, K))
            kw["kernel"] = ker.copy()
    else:
        kw = {"force_coeff": f.copy() if case["plain"] else xr.DataArray(f, dims=("dim_basis", "dim_x")), "kernel": ker.copy() if case["plain"] else xr.DataArray(ker, dims=("time_kernel", "dim_basis", "dim_x"))}
    if case["method"] != "trapz":
        kw["method"] = case["method"]
    used = ker
    if case["ti"] is not None:
        kw["trunc_ind"] = case["ti"]
        used = ker[: case["ti"]]
    if not case["same"]:
        kw["corrs_kernel"] = CK.copy()
    keep = CF.copy()
    got = m.flux_from_volterra(CF, **kw)
    require(np.array_equal(CF, keep), "the correlations have been modified")
    force_term, mem = got
    want = np.zeros((n, o, d))
    for i in range(1, n):
        ml = min(i, len(used) - 1)
        w = weights(case["method"], ml)
        for j in range(ml + 1):
            want[i] -= dt * w[j] * CK[:, :, i - j] @ used[j]
    sc = dt * np.abs(CK).max() * np.abs(used).sum(axis=0).max() * K + 1e-300
    close(mem, want, "memory part of the flux (%s)" % case["method"], rtol=1e-10, scale=sc)
    wf = np.einsum("kl,okt->olt", f, CF)
    close(force_term, wf, "force part of the flux", rtol=1e-11, scale=np.abs(f).max() * np.abs(CF).max() * K)
    return {"nontrivial": n > 3 and len(used) > 2, "labels": [case["method"], "own" if square else "given", "same" if case["same"] else "two", "truncated" if len(used) < n else "full"]}


def check_laplace(case):
    rng = rng_of(case["seed"], 23)
    K, n, dt = case["K"], case["n"], case["dt"] / case["every"]
    rates = rng.uniform(0.5, 2.5, size=2)
    T = 14.0
    n = max(n, int(T / dt) + 1)
    if case["odd"]:
        n = n | 1
    t = np.arange(n) * dt
    amps = rng.normal(size=(2, K, K))
    ker = sum(a[None] * np.exp(-r * t)[:, None, None] for a, r in zip(amps, rates))
    t = t[case["first"] :: case["every"]]
    ker = ker[case["first"] :: case["every"]]
    n = len(t)
    m = model(K, dt, np.zeros((K, K)), ker)
    m.kernel = m.kernel.assign_coords(time_kernel=t)  # the midpoint methods have no value at zero and other steps
    kw = {}
    if case["s0"]:
        kw["s_start"] = case["s0"]
    if case["s1"]:
        kw["s_end"] = case["s1"]
    if case["np"]:
        kw["n_points"] = case["np"]
    s, lap = m.laplace_transform_kernel(**kw)
    s_want = np.linspace(case["s0"], case["s1"] or 1.0 / dt, case["np"] or n)
    close(s, s_want, "Laplace variable", rtol=1e-12)
    lap = as_np(lap)
    require(lap.shape == (len(s_want), K, K), "shape %s", lap.shape)
    ok = s_want * dt * case["every"] < 0.35  # the quadrature resolves exp(-s t)
    beg, end = t[0], t[-1]
    want = sum(a[None] * ((np.exp(-(r + s_want) * beg) - np.exp(-(r + s_want) * end)) / (r + s_want))[:, None, None] for a, r in zip(amps, rates))
    sc = np.abs(amps).sum()
    close(lap[ok], want[ok], "Laplace transform", rtol=2e-3, scale=sc)
    return {"nontrivial": ok.sum() > 2, "labels": ["laplace", "K%d" % K] + ["negative"] * (case["s0"] < 0)}


@st.composite
def cases(draw):
    c = {
        "method": draw(st.sampled_from(["rect", "trapz", "simpson"])),
        "K": draw(st.integers(1, 3)),
        "d": draw(st.integers(1, 3)),
        "o": draw(st.integers(1, 3)),
        "n": draw(st.sampled_from([2, 3] + list(range(4, 25)))),
        "nk": draw(st.sampled_from([2, 3] + list(range(3, 20)))),
        "ti": draw(st.one_of(st.none(), st.integers(2, 15))),
        "dt": draw(st.sampled_from([0.1, 0.5, 1.0])),
        "own": draw(st.booleans()),
        "f": draw(st.integers(0, 7)),
        "same": draw(st.booleans()),
        "nf": draw(st.sampled_from([0, 0, 0, 5, -1])),
        "mix": draw(st.sampled_from(["", "", "force", "kernel"])),
        "plain": draw(st.booleans()),
        "seed": draw(gen.seeds),
    }
    if draw(st.integers(0, 24)) == 9:  # a long memory
        c["n"], c["nk"], c["ti"] = draw(st.integers(120, 200)), draw(st.integers(110, 180)), None
    return c


@st.composite
def lap_cases(draw):
    return {"K": draw(st.integers(1, 3)), "n": draw(st.integers(10, 60)), "dt": draw(st.sampled_from([0.1, 0.05, 0.2])), "odd": draw(st.booleans()), "first": draw(st.integers(0, 1)), "every": draw(st.sampled_from([1, 1, 2])), "s0": draw(st.sampled_from([0.0, 0.0, 0.3, -0.2, 1.5])), "s1": draw(st.sampled_from([None, 1.0, 2.0])), "np": draw(st.sampled_from([None, 5, 20, 1])), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C21",
    "random correlations, forces and kernels of any length (own or given, plain or named arrays, truncated), rectangular, trapezoidal and Simpson rules: both parts of the flux compared with sums written with numpy; Laplace transform of sums of exponentials compared with its closed form. Non-trivial: more than three times and more than two frames of memory / resolved range of the Laplace variable.",
    [SubCheck("flux", cases, check, 1200), SubCheck("laplace", lap_cases, check_laplace, 300)],
)
