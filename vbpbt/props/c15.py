"""C15: observable = mean force + memory + noise, frame by frame, with the memory of the method of the kernel."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, SubCheck, as_np, close, require, rng_of

RECT = ("rect", "rectangular", "second_kind_rect")


def memory(kind, ker, E, dt):
    T, L = len(E), len(ker) - 1
    mem = np.zeros((T, ker.shape[2]))
    for i in range(1, T):
        m = min(i, L)
        w = np.full(m + 1, dt)
        if kind != "rect" and m > 0:
            w[0] = w[m] = 0.5 * dt
        mem[i] = -np.einsum("jk,jko->o", E[i - np.arange(m + 1)], w[:, None, None] * ker[: m + 1])
    return mem


def prepared(case, r, method):
    """Estimator with force, range projection and a (bounded) kernel."""
    est = ref.estimator(r, dask=False)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method=method)
    k = est.model.kernel
    rng = rng_of(case["traj"]["seed"], 88)
    n = case["klen"] or k.shape[0]
    t = np.arange(n) * r.dt
    val = rng.normal(size=(n,) + k.shape[1:]) * np.exp(-np.arange(n) / (6.0 if n < 100 else 200.0))[:, None, None] / (r.dt * 4)
    if case["own"] and np.abs(k).max() < 1e6:
        val, t = as_np(k).copy(), as_np(k["time_kernel"]).copy()
    est.model.kernel = xr.DataArray(val, dims=k.dims, coords={"time_kernel": t})
    return est, val


def regress(est, r, arr, f):
    EF, E, _ = r.regressors(*arr)
    if r.rank_projection:
        P = as_np(est.model.P_range.transpose("dim_basis", "dim_basis_old"))
        E = E @ P.T
    return EF @ f, E


def check(case):
    r = ref.Ref(case)
    if not r.healthy(case["method"]):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    est, ker = prepared(case, r, case["method"])
    model = est.model
    f = as_np(model.force_coeff)
    i = case["which"] % len(r.arrays)
    ds = ref.trajs(r)[i]
    keep = ds.copy(deep=True)
    T = r.lens[i]
    kw, start, end = {}, 0, T
    if case["start"] is not None:
        start = min(case["start"], T - 4)
        kw["start_point"] = start
    if case["end"] is not None:
        end = max(start + 3, T - case["end"])
        kw["end_point"] = end
    used = ker
    if case["tk"] is not None:
        kw["trunc_kernel"] = case["tk"]
        used = ker[: case["tk"]]
    else:
        used = ker[: r.trunc_ind()]
    shift = case["t0"]
    if shift:
        ds = ds.assign_coords(time=ds["time"] + shift)
    time, noise, obs, force, mem = model.compute_noise(ds, **kw)
    noise, obs, force, mem = (as_np(z) for z in (noise, obs, force, mem))
    arr = tuple(z[start:end] for z in r.arrays[i])
    wf, E = regress(est, r, arr, f)
    L = r.L(i)[start:end]
    close(time, np.arange(start, end) * r.dt, "times", rtol=1e-9, atol=1e-9 * (abs(shift) + 1))
    close(obs, L, "observable", rtol=1e-12)
    sf = np.abs(wf).max() + 1e-9 * np.abs(f).max()
    close(force, wf, "mean force along the trajectory", rtol=1e-9, scale=sf + 1e-300)
    kind = "rect" if case["method"] in RECT else "trapz"
    want = memory(kind, used, E, r.dt)
    sm = np.abs(E).max() * r.dt * np.abs(used).sum(axis=0).max() * E.shape[1] + 1e-300
    # the time step is read back from the times of the trajectory
    close(mem, want, "memory along the trajectory (%s)" % kind, rtol=1e-8, scale=sm)
    close(noise, L - wf - want, "noise along the trajectory", rtol=1e-8, scale=sm + sf + np.abs(L).max())
    close(noise + force + mem, obs, "sum of the terms", rtol=1e-12, scale=sm + sf + np.abs(L).max())
    # causality: the end of the trajectory does not change the terms before
    cut = min(len(L) - 1, 3 + case["which"] * 7)
    kw2 = dict(kw, end_point=start + cut)
    t2 = model.compute_noise(ds, **kw2)
    close(t2[1], noise[:cut], "noise when the trajectory is cut later", rtol=1e-10, scale=sm + sf + np.abs(L).max())
    require(keep["x"].equals(ds["x"].assign_coords(time=keep["time"])), "the trajectory has been modified")
    return {"nontrivial": end - start > len(used) or case["tk"] is not None, "labels": [case["model"], kind, "dim%d" % r.dim, "own" if case["own"] else "given", "start" if case["start"] else "all", "longmem" if len(used) >= end - start else "truncated"]}


def long_memory(draw, c):
    """now and then a memory of hundreds of frames"""
    if draw(st.integers(0, 24)) == 12:
        n = draw(st.one_of(st.integers(200, 420), st.integers(500, 700)))
        c["traj"]["lens"] = [draw(st.integers(n + 20, n + 300))]
        c["trunc"], c["klen"], c["own"] = n, n, False
        if c.get("tk") is not None:
            c["tk"] = n - draw(st.integers(0, 20))


@st.composite
def cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2), max_trajs=2, min_len=24, max_len=70))
    c["trunc"] = draw(st.integers(6, 20))
    c["method"] = draw(st.sampled_from(["rect", "rectangular", "trapz", "second_kind_rect", "second_kind_trapz"]))
    c["which"] = draw(st.integers(0, 3))
    c["own"] = draw(st.booleans())
    c["klen"] = draw(st.sampled_from([0, 0, 2, 5, 30]))
    c["start"] = draw(st.one_of(st.none(), st.integers(0, 15)))
    c["end"] = draw(st.one_of(st.none(), st.integers(1, 8)))
    c["tk"] = draw(st.one_of(st.none(), st.integers(2, 30), st.sampled_from([0, 1])))
    long_memory(draw, c)
    c["t0"] = draw(st.sampled_from([0.0, 0.0, 100.0]))
    return c


PROPERTY = Property(
    "C15",
    "every model, random basis, kernel computed from the data or a random one of another length, any part of a trajectory (start, end), truncated kernel, shifted time origin: the five outputs compared with sums written out with numpy; causality checked on a shorter trajectory. Non-trivial: the trajectory is longer than the memory or the kernel is truncated.",
    [SubCheck("noise", cases, check, 350)],
)
