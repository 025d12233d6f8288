"""C20: evolve_volterra integrates dG/dt = G f - int G(t-s) K(s) ds with the given force and kernel."""
import numpy as np
import scipy.linalg
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen
from ..core import Property, SubCheck, as_np, close, require, rng_of


def model(K, dt, f, ker):
    m = vb.Pos_gle_overdamped(bf.PolynomialFeatures(deg=max(1, K - 1)), dt, dim_x=1, dim_obs=K, trunc_ind=len(ker))
    m.force_coeff = xr.DataArray(f.copy(), dims=("dim_basis", "dim_x"))
    m.kernel = xr.DataArray(ker.copy(), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(len(ker)) * dt})
    return m


def scheme(method, ker, G0, f, n, dt):
    """The explicit scheme, implicit in the instantaneous part of the memory."""
    K = G0.shape[1]
    L = len(ker) - 1
    G = np.zeros(G0.shape + (n,))
    G[:, :, 0] = G0
    w = 1.0 if method == "rect" else 0.5
    inv = np.eye(K) + w * dt**2 * ker[0]
    for i in range(1, n):
        last = min(i, L) - (2 if method == "rect" else 1)
        rhs = G[:, :, i - 1] + dt * G[:, :, i - 1] @ f
        if last > 0:
            rhs = rhs - dt * dt * np.einsum("abj,jbc->ac", G[:, :, i - np.arange(1, last + 1)], ker[1 : last + 1])
        g = np.linalg.solve(inv.T, rhs.T).T
        if method == "trapz_stab":
            g = np.maximum(g, 0.0)
            g = g / g.sum()
        G[:, :, i] = g
    return G


def check(case):
    rng = rng_of(case["seed"], 20)
    K, n, dt, nk = case["K"], case["n"], case["dt"], case["nk"]
    f = rng.normal(size=(K, K)) - 1.2 * np.eye(K)
    ker = rng.normal(size=(nk, K, K)) * np.exp(-np.arange(nk) * dt)[:, None, None]
    G0 = np.abs(rng.normal(size=(K, K))) + 0.1
    G0 *= case["size"]
    if case["method"] == "trapz_stab" and case["normed"]:
        G0 /= G0.sum()
    m = model(K, dt, f, ker)
    kw = {} if case["method"] == "trapz" and case["default"] else {"method": case["method"]}
    used = ker
    if case["ti"] is not None:
        kw["trunc_ind"] = case["ti"]
        if case["ti"] > 0:
            used = ker[: case["ti"]]
    keep = G0.copy()
    t, G = m.evolve_volterra(G0, n, **kw)
    require(np.array_equal(keep, G0), "the initial value has been modified")
    require(np.array_equal(as_np(m.kernel), ker) and np.array_equal(as_np(m.force_coeff), f), "the model has been modified")
    close(t, np.arange(n) * dt, "times", rtol=1e-12)
    want = scheme(case["method"], used, G0, f, n, dt)
    require(G.shape == want.shape, "shape %s, expected %s", G.shape, want.shape)
    sc = np.maximum.accumulate(np.abs(want).reshape(-1, n).max(axis=0))
    if not np.all(np.isfinite(want)):
        return {"nontrivial": False, "labels": ["diverges"]}
    for i in range(n):
        close(G[:, :, i], want[:, :, i], "%s: solution at step %d" % (case["method"], i), rtol=1e-8, scale=sc[i])
    if case["method"] == "trapz_stab":
        require(np.all(G >= 0), "negative populations")
        close(G[:, :, 1:].sum(axis=(0, 1)), np.ones(n - 1), "normalisation", rtol=1e-10)
    elif n > 3:
        # a longer run starts with the shorter one
        t2, G2 = m.evolve_volterra(G0, n - 2, **kw)
        close(G2, G[:, :, : n - 2], "shorter run", rtol=1e-10, scale=sc[-1])
        # linear in the initial value
        t3, G3 = m.evolve_volterra(-2.0 * G0, n, **kw)
        for i in range(n):
            close(G3[:, :, i], -2.0 * G[:, :, i], "linearity in the initial value, step %d" % i, rtol=1e-9, scale=2 * sc[i])
    return {"nontrivial": n > 3 and len(used) > 3, "labels": [case["method"], "K%d" % K, "truncated" if len(used) < nk else "full", "long" if n > nk else "short"]}


def exact(f, A, tau, G0, t):
    K = len(f)
    M = np.block([[f, A], [-np.eye(K), -np.eye(K) / tau]])
    y0 = np.concatenate((G0, np.zeros_like(G0)), axis=1)
    return np.stack([(y0 @ scipy.linalg.expm(M * s))[:, :K] for s in t], axis=-1)


def check_conv(case):
    rng = rng_of(case["seed"], 21)
    K = case["K"]
    f = -0.6 * np.eye(K) + 0.3 * rng.normal(size=(K, K))
    A = 0.8 * np.eye(K) + 0.4 * rng.normal(size=(K, K))
    tau = rng.uniform(0.3, 1.2)
    G0 = np.eye(K) + 0.3 * rng.normal(size=(K, K))
    T = 2.0
    errs = []
    for n in (101, 401):
        dt = T / (n - 1)
        t = np.arange(n) * dt
        m = model(K, dt, f, A[None] * np.exp(-t / tau)[:, None, None])
        t2, G = m.evolve_volterra(G0, n, method=case["method"])
        ex = exact(f, A, tau, G0, t[:: (n - 1) // 20])
        errs.append(np.abs(G[:, :, :: (n - 1) // 20] - ex).max() / np.abs(ex).max())
    for e, h in zip(errs, (T / 100, T / 400)):
        require(e < 3.0 * h, "%s: error %.3g on the solution of the Volterra equation with time step %.3g", case["method"], e, h)
    return {"nontrivial": True, "labels": [case["method"], "K%d" % K]}


@st.composite
def cases(draw):
    return {
        "method": draw(st.sampled_from(["rect", "trapz", "trapz_stab"])),
        "default": draw(st.booleans()),
        "size": draw(st.sampled_from([1.0, 1.0, 1e-5, 1e4])),
        "normed": draw(st.booleans()),
        "K": draw(st.integers(1, 4)),
        "n": draw(st.one_of(*[st.integers(1, 40)] * 12, st.integers(100, 300))),
        "nk": draw(st.one_of(*[st.integers(2, 30)] * 12, st.integers(100, 200))),
        "dt": draw(st.sampled_from([0.05, 0.1, 0.01])),
        "ti": draw(st.one_of(st.none(), st.sampled_from([0, -1, 1]), st.integers(2, 40))),
        "seed": draw(gen.seeds),
    }


@st.composite
def conv_cases(draw):
    return {"method": draw(st.sampled_from(["rect", "trapz"])), "K": draw(st.integers(1, 3)), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C20",
    "random forces and kernels (1-4 functions), run lengths shorter and longer than the memory, truncated kernels, all methods: each step compared with the scheme written with numpy; exponential kernels compared with the matrix exponential of the equivalent local system with two time steps. Non-trivial: more than three steps and a memory of more than three frames.",
    [SubCheck("scheme", cases, check, 1500), SubCheck("converge", conv_cases, check_conv, 300)],
    assumptions=["the scheme is first order: the end point of the memory integral is left out, as in the code"],
)
