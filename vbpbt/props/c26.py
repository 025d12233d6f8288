"""C26: Prony series reproduce sums of decaying exponentials."""
import numpy as np
import scipy.linalg
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen
from ..core import Property, SubCheck, as_np, close, require, rng_of


def terms(rng, m, kinds):
    """multipliers per step (inside the unit circle) and amplitudes of m real or complex pairs"""
    lam, amp = [], []
    r = rng.uniform(0.72, 0.95)
    for i in range(m):
        kind = kinds[i % len(kinds)]
        if kind == "osc":
            w = rng.uniform(0.35, 1.2) + 0.8 * i
            a = 0.5 * rng.uniform(0.5, 1.5) * np.exp(1j * rng.uniform(-0.5, 0.5))
            z = max(r, 0.6) * np.exp(1j * w)
            lam += [z, np.conj(z)]
            amp += [a, np.conj(a)]
        elif kind == "neg":
            lam.append(-rng.choice([rng.uniform(0.4, 0.9), 10.0 ** rng.uniform(-4, -1)]))
            amp.append(rng.uniform(0.2, 0.6))
        else:
            lam.append(r)
            amp.append(rng.uniform(0.4, 1.5))
        r = max(0.12, r * rng.uniform(0.45, 0.65))
    return np.array(lam), np.array(amp)


def series(lam, amp, n):
    n = np.asarray(n, dtype=float)
    return np.real(np.sum(amp[None, :] * np.exp(np.log(lam.astype(complex))[None, :] * n[:, None]), axis=1))


def minors(y, m):
    """diagonal of the LDL^T factors of the m x m Hankel matrix: how well posed the fit is"""
    H = scipy.linalg.hankel(y[:m], y[m - 1 : 2 * m - 1]).astype(float)
    out = []
    for i in range(m):
        out.append(H[0, 0])
        if H[0, 0] == 0:
            return np.zeros(1)
        H = H[1:, 1:] - np.outer(H[1:, 0], H[0, 1:]) / H[0, 0]
    return np.array(out)


def posed(y, m):
    y = y / y[0]
    n = (len(y) - 1) // 2
    if n < m:
        return 0.0
    s = np.linalg.svd(scipy.linalg.hankel(y[: n + 1], y[n : 2 * n + 1]), compute_uv=False)
    return min(np.abs(minors(y, m)).min(), s[m - 1] / s[0])


def make(case, salt=0):
    rng = rng_of(case["seed"], 260, salt)
    lam, amp = terms(rng, case["m"], case["kinds"])
    amp = amp * case["scale"]
    return lam, amp


def on_grid(lam, n):
    """with negative multipliers the continuation between the samples is not the exponential sum"""
    return np.all((np.abs(lam.imag) > 1e-9) | (lam.real > 0)) or np.allclose(n, np.round(n))


def check(case):
    lam, amp = make(case)
    m, dt = len(lam), case["dt"]
    y = series(lam, amp, np.arange(case["n"]))
    q = posed(y, m)
    if q < 1e-5 or np.abs(y).max() / abs(y[0]) > 50:
        return {"nontrivial": False, "labels": ["ill-posed"]}
    tol = max(1e-8, 1e-12 / q**2)
    kw = {}
    if case["filter"] == "keep":
        kw["N_keep"] = m
    elif case["filter"] == "thres":
        kw["thres"] = 1e-3 * q
    elif case["filter"] == "both":
        kw["thres"] = 1e-10
        kw["N_keep"] = m
    if case["remove"] is not None:
        kw["remove"] = case["remove"]
    keep = y.copy()
    data = xr.DataArray(y.copy(), dims="t") if case["xarray"] else y.copy()
    y0, A = vb.prony_fit_times_serie(data, dt, **kw)
    require(np.array_equal(as_np(data), keep), "the data have been modified")
    close(np.asarray(float(y0)), np.asarray(y[0]), "initial value", rtol=1e-12)
    A = np.asarray(A)
    require(A.ndim == 2 and A.shape[0] == A.shape[1], "shape of the generator %s", A.shape)
    require(not np.iscomplexobj(A), "the generator of a real series is not real")
    steps = np.concatenate((np.arange(case["n"]), np.arange(case["n"], 2 * case["n"], 3), [250, 1000, 4000]))  # data, then prediction
    sc = np.abs(amp).sum()
    got = vb.prony_series_eval(steps * dt, y0, A)
    close(got, series(lam, amp, steps), "Prony series at the samples", rtol=tol, scale=sc)
    if not any(k == "neg" for k in case["kinds"][: case["m"]]):
        mid = np.arange(case["n"]) + 0.37
        close(vb.prony_series_eval(mid * dt, y0, A), series(lam, amp, mid), "Prony series between the samples", rtol=tol, scale=sc)
        ev = np.linalg.eigvals(A)
        require(len(ev) == m, "%d terms instead of %d", len(ev), m)
        ex = np.log(lam.astype(complex)) / dt
        for e in ex:
            require(np.abs(ev - e).min() < 1e-6 * (1 + 1e-6 / q**1.5) / dt + 1e-3 * abs(e), "exponent %s is missing from %s", e, ev)
    if np.abs(lam).max() < 0.999:  # long after everything has decayed
        close(vb.prony_series_eval(np.array([3e4, 3e5, 1e6]) * dt, y0, A), np.zeros(3), "Prony series at long times", atol=sc * 1e-9)
    # evaluated at times in any order, one by one
    perm = rng_of(case["seed"], 261).permutation(len(steps))
    close(vb.prony_series_eval(steps[perm] * dt, y0, A), got[perm], "Prony series at shuffled times", rtol=1e-12, scale=sc)
    one = case["n"] // 2
    close(vb.prony_series_eval(steps[one : one + 1] * dt, y0, A), got[one : one + 1], "Prony series at one time", rtol=1e-12, scale=sc)
    # same through the generic interface
    ty, par = vb.memory_fit(np.arange(case["n"]) * dt, y, type="prony", **kw)
    close(vb.memory_fit_eval(steps * dt, (ty, par)), got, "memory_fit with a Prony series", rtol=1e-12, scale=sc)
    # filtering does not alter data of this rank
    ins = {k: v for k, v in kw.items() if k != "remove"}
    used = 2 * ((case["n"] - 1) // 2) + 1
    close(vb.prony_inspect_data(y, **ins), y[:used], "filtered data", rtol=1e-8, scale=sc)
    return {"nontrivial": m > 1, "labels": ["terms%d" % m, case["filter"]] + sorted(set(case["kinds"][: case["m"]]))}


def check_inspect(case):
    """what the filter keeps: best approximation of the Hankel matrix of the requested rank"""
    rng = rng_of(case["seed"], 262)
    y = rng.normal(size=case["n"]) * 0.2 + np.exp(-0.2 * np.arange(case["n"]))
    if abs(y[0]) < 0.3:
        y[0] = 1.0
    n = (len(y) - 1) // 2
    H = scipy.linalg.hankel(y[: n + 1], y[n : 2 * n + 1])
    u, s, vh = np.linalg.svd(H)
    kw = {}
    N = n
    if case["N_keep"] is not None:
        kw["N_keep"] = case["N_keep"]
        N = min(N, case["N_keep"])
    if case["thres"] is not None:
        th = s[0] * case["thres"]
        if np.abs(s / th - 1).min() < 1e-6:
            return {"nontrivial": False, "labels": ["ambiguous"]}
        kw["thres"] = th / abs(y[0])
        N = min(N, int((s > th).sum()))
    if N < len(s) and s[N] > s[N - 1] * (1 - 1e-6):
        return {"nontrivial": False, "labels": ["ambiguous"]}
    L = (u[:, :N] * s[:N]) @ vh[:N]
    want = np.concatenate((L[:, 0], L[-1, 1:]))
    close(vb.prony_inspect_data(y, **kw), want, "filtered data", rtol=1e-8, scale=np.abs(y).max())
    return {"nontrivial": N < n, "labels": ["rank%d" % min(N, 5)]}


def check_stable(case):
    """diverging exponentials are kept or removed as asked"""
    rng = rng_of(case["seed"], 263)
    dt, n = case["dt"], case["n"]
    if case["grow"]:
        lam, amp = terms(rng, case["m"], case["kinds"])
        lam[0] = rng.uniform(1.02, 1.15)
        if case["kinds"][0] == "osc":
            lam, amp = np.delete(lam, 1), np.real(np.delete(amp, 1)) + 0j
            if case["m"] > 1 and "osc" in case["kinds"][1 : case["m"]]:
                return {"nontrivial": False, "labels": ["skipped"]}
        amp = np.real(amp) if np.all(np.abs(lam.imag) < 1e-12) else amp
        y = series(lam, amp, np.arange(n))
        q = posed(y, len(lam))
        if q < 1e-4 or np.abs(y).max() / abs(y[0]) > 50:
            return {"nontrivial": False, "labels": ["ill-posed"]}
        y0, A = vb.prony_fit_times_serie(y, dt, N_keep=len(lam), remove=False)
        close(vb.prony_series_eval(np.arange(n) * dt, y0, A), y, "series with a diverging term kept", rtol=max(1e-7, 1e-12 / q**2), scale=np.abs(y).max())
        if True:
            y0, A = vb.prony_fit_times_serie(y, dt, N_keep=len(lam))
            require(len(A) == 0 or np.linalg.eigvals(A).real.max() <= 1e-5 * np.abs(A).max(), "a diverging term has not been removed")
            require(len(A) < 2 * len(lam), "no term has been removed")
        return {"nontrivial": len(lam) > 1, "labels": ["grow"]}
    lam, amp = terms(rng, 1, ["real"])
    y = series(lam, amp, np.arange(n)) + case["level"] * rng.normal(size=n)
    if abs(y[0]) < 0.2:
        return {"nontrivial": False, "labels": ["ill-posed"]}
    try:
        y0, A = vb.prony_fit_times_serie(y, dt, N_keep=case["m"])
    except ValueError as e:
        if "Filtering" in str(e):  # the documented refusal
            return {"nontrivial": False, "labels": ["refused"]}
        raise
    require(abs(y0 - y[0]) < 1e-12 * abs(y[0]), "initial value %s of data that start at %s", y0, y[0])
    require(len(A) <= 2 * case["m"], "%d terms at most asked, the generator is of size %d", case["m"], len(A))
    if not np.all(np.isfinite(A)):  # a multiplier that is exactly zero has no exponent
        return {"nontrivial": False, "labels": ["degenerate"]}
    if len(A):
        require(np.linalg.eigvals(A).real.max() <= 1e-5 * np.abs(A).max(), "a diverging term has not been removed")
    return {"nontrivial": case["m"] > 1, "labels": ["noise"]}


def case_scale(case):
    return abs(case["scale"])


def check_kernel(case):
    K, d, dt, n = case["K"], case["d"], case["dt"], case["n"]
    ker = np.zeros((n, K, d))
    parts = {}
    steps = np.concatenate((np.arange(n), np.arange(n) + 0.37))
    want = np.zeros((len(steps), K, d))
    tol = 1e-8
    rank = None
    for k in range(K):
        for j in range(d):
            lam, amp = make(case, 1 + k * 7 + j)
            rank = len(lam)
            y = series(lam, amp, np.arange(n))
            q = posed(y, rank)
            if q < 1e-5 or np.abs(y).max() / abs(y[0]) > 50:
                return {"nontrivial": False, "labels": ["ill-posed"]}
            tol = max(tol, 1e-12 / q**2)
            ker[:, k, j] = y
            want[:, k, j] = series(lam, amp, steps)
    t = (np.arange(n) + case["t0"]) * dt  # only the step counts
    given = xr.DataArray(ker.copy(), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t}) if case["xarray"] else ker.copy()
    times = given["time_kernel"] if case["xarray"] else t
    fit = vb.prony_fit_kernel(times, given, N_keep=rank)
    sc = np.abs(want).max()
    ev = xr.DataArray(steps * dt, dims="t") if case["xarray"] else steps * dt
    close(vb.prony_series_kernel_eval(ev, fit), want, "Prony series of the kernel", rtol=tol, scale=sc)
    close(vb.prony_series_kernel_eval(steps[3:4] * dt, fit), want[3:4], "Prony series of the kernel at one time", rtol=tol, scale=sc)
    require(np.array_equal(as_np(given), ker), "the kernel has been modified")
    # noisy data: each component is fitted as a series of its own, with the options given
    noisy = ker + 1e-3 * sc * rng_of(case["seed"], 264).normal(size=ker.shape)
    noisy = noisy * 1.03 ** (case["growth"] * np.arange(n))[:, None, None]  # growing terms are removed
    if np.abs(noisy[0]).min() > 0.1 * case_scale(case):
        nfit = vb.prony_fit_kernel(t, noisy, N_keep=rank)
        for k in range(K):
            for j in range(d):
                y0, A = vb.prony_fit_times_serie(noisy[:, k, j], dt, N_keep=rank)
                require(np.shape(nfit[j][k][1]) == np.shape(A), "series of %s terms for the component %d,%d of the kernel, %s alone", np.shape(nfit[j][k][1]), k, j, np.shape(A))
                close(nfit[j][k][1], A, "series of one component of the kernel", rtol=1e-6)
    ty, par = vb.memory_fit_kernel(times, given, type="prony", N_keep=rank)
    close(vb.memory_kernel_eval(steps * dt, (ty, par)), want, "memory_fit_kernel with Prony series", rtol=tol, scale=sc)
    return {"nontrivial": K * d > 1, "labels": ["K%d" % K, "d%d" % d]}


def kinds():
    return st.lists(st.sampled_from(["real", "real", "osc", "neg"]), min_size=3, max_size=3)


@st.composite
def cases(draw):
    return {"m": draw(st.integers(1, 3)), "kinds": draw(kinds()), "n": draw(st.one_of(*[st.integers(5, 40)] * 15, st.integers(90, 300))), "dt": draw(st.sampled_from([1.0, 0.1, 0.02, 2.5])), "scale": draw(st.sampled_from([1.0, -2.0, 30.0, 0.01])), "filter": draw(st.sampled_from(["keep", "thres", "both"])), "remove": draw(st.sampled_from([None, True, False])), "xarray": draw(st.booleans()), "seed": draw(gen.seeds)}


@st.composite
def stable_cases(draw):
    return {"grow": draw(st.booleans()), "m": draw(st.integers(1, 3)), "kinds": draw(kinds()), "n": draw(st.integers(9, 40)), "dt": draw(st.sampled_from([1.0, 0.1, 0.02])), "level": draw(st.sampled_from([0.001, 0.02, 0.1])), "seed": draw(gen.seeds)}


@st.composite
def inspect_cases(draw):
    return {"n": draw(st.one_of(*[st.integers(5, 40)] * 9, st.integers(100, 420))), "N_keep": draw(st.one_of(st.none(), st.integers(1, 30))), "thres": draw(st.one_of(st.none(), st.sampled_from([0.5, 0.1, 0.01]))), "seed": draw(gen.seeds)}


@st.composite
def ker_cases(draw):
    return {"m": draw(st.integers(1, 2)), "kinds": [draw(st.sampled_from(["real", "osc"])), "real", "real"], "n": draw(st.integers(11, 40)), "t0": draw(st.sampled_from([0, 0, 1, 7])), "growth": draw(st.sampled_from([0, 0, 4])), "K": draw(st.integers(1, 5)), "d": draw(st.integers(1, 3)), "dt": draw(st.sampled_from([1.0, 0.1])), "scale": draw(st.sampled_from([1.0, -2.0, 0.05])), "xarray": draw(st.booleans()), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C26",
    "sums of 1-3 decaying real, alternating or oscillating exponentials, any time step, length and scale, filtered by the number of terms or by the threshold: the series evaluated at the samples, beyond them and between them, and the exponents, compared with the generating sum; kernels with several components; growing terms kept or removed as asked, on exact and on noisy data; filtered data compared with the best approximation of the Hankel matrix. Non-trivial: two terms or more, leading minors of the Hankel matrix above 1e-5.",
    [SubCheck("series", cases, check, 1000), SubCheck("inspect", inspect_cases, check_inspect, 400), SubCheck("stable", stable_cases, check_stable, 500), SubCheck("kernel", ker_cases, check_kernel, 150)],
    assumptions=["tolerance grows as the inverse square of the smallest leading minor", "at least twice as many samples as terms"],
)
