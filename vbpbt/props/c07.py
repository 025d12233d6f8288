"""C07: trajectory preparation: finite differences, dropped ends, jumps, no loss of frames."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen
from ..core import Property, SubCheck, as_np, close, require, rng_of


def path(case):
    rng = rng_of(case["seed"], 1)
    n, dim, dt = case["n"], case["dim"], case["dt"]
    t = case["t0"] + np.arange(n) * dt
    if case["path"] == "poly":
        c = rng.normal(size=(4, dim))
        x = sum(c[k] * ((t - case["t0"])[:, None]) ** k for k in range(4))
    else:
        x = np.cumsum(rng.normal(size=(n, dim)), axis=0) * 0.3
    return t, x


def frame(case, t, x, **kw):
    if case["dask"]:
        import dask.array as da

        x = da.from_array(x, chunks=(max(2, len(x) // 3), -1))
    elif case["as1d"] and x.shape[1] == 1:
        x = x[:, 0]
    return vb.xframe(x, t, **kw)


def unjump(diff, jump, thr):
    return np.where(diff <= -thr, diff + jump, np.where(diff >= thr, diff - jump, diff))


def check(case):
    t, x = path(case)
    dt, n, dim = case["dt"], case["n"], case["dim"]
    xin = x.copy()
    xf = frame(case, t, xin)
    require(set(xf.data_vars) == {"x"}, "variables %s", list(xf.data_vars))
    require(tuple(xf["x"].dims) == ("time", "dim_x") and xf["x"].shape == (n, dim), "x has dims %s shape %s", xf["x"].dims, xf["x"].shape)
    close(xf["x"], x, "positions", rtol=1e-15)
    close(xf["time"], t, "time", rtol=1e-14, atol=1e-14)
    close(xf.attrs["dt"], t[1] - t[0], "dt", rtol=1e-12)
    d = xf.attrs["dt"]
    op = case["op"]
    sc1, sc2 = np.abs(np.diff(x, axis=0)).max() / dt, np.abs(np.diff(x, axis=0)).max() / dt**2
    if op == "va":
        lam = case["lam"]
        kw = {} if lam == 0.5 and case["default"] else {"lamb_finite_diff": lam}
        r = vb.compute_va(xf, **kw)
        v = (lam * (x[2:] - x[1:-1]) + (1 - lam) * (x[1:-1] - x[:-2])) / d
        a = (x[2:] - 2 * x[1:-1] + x[:-2]) / d**2
        sl = slice(1, -1)
    elif op == "gjf":
        r = vb.compute_va_gjf(xf)
        v = (x[1:-1] - x[:-2]) / d
        a = (x[2:] - 2 * x[1:-1] + x[:-2]) / d**2
        sl = slice(1, -1)
    elif op == "jumps":
        L = case["L"]
        thr = case["thr"] * L
        # a smooth path on a circle, wrapped
        rng = rng_of(case["seed"], 2)
        inc = rng.uniform(-0.1, 0.1, size=(n, dim)) * L
        xu = np.cumsum(inc, axis=0)
        xw = np.mod(xu, L)
        xf = vb.xframe(xw, t)
        f = vb.compute_va if case["lam"] == 0.5 else vb.compute_va_gjf
        kw = {"correct_jumps": True, "jump": L, "jump_thr": thr}
        r = f(xf, **kw)
        x = xw
        lam = 0.5 if f is vb.compute_va else 0.0
        v = (lam * (xu[2:] - xu[1:-1]) + (1 - lam) * (xu[1:-1] - xu[:-2])) / d
        a = (xu[2:] - 2 * xu[1:-1] + xu[:-2]) / d**2
        sl = slice(1, -1)
        sc1, sc2 = L / dt, L / dt**2
        if n > 2:
            q = f(vb.xframe(xu, t))  # without wrapping: same velocities
            close(r["v"], q["v"], "velocity of the unwrapped trajectory", rtol=1e-10, scale=sc1)
    elif op == "steps":
        L = case["L"]
        thr = max(case["thr"], 0.51) * L
        # any differences, below and above the threshold: only those above are jumps
        rng = rng_of(case["seed"], 5)
        inc = rng.uniform(-1.2, 1.2, size=(n, dim)) * L
        inc = np.where(np.abs(np.abs(inc) - thr) < 1e-6 * L, 0.0, inc)
        x = np.cumsum(inc, axis=0)
        f = vb.compute_va if case["lam"] == 0.5 else vb.compute_va_gjf
        r = f(frame(case, t, x), correct_jumps=True, jump=L, jump_thr=thr)
        q = unjump(np.diff(x, axis=0), L, thr)
        v = (0.5 * (q[1:] + q[:-1]) if f is vb.compute_va else q[:-1]) / d
        a = (q[1:] - q[:-1]) / d**2
        sl = slice(1, -1)
        sc1, sc2 = L / dt, L / dt**2
    elif op in ("a_from_vel", "a"):
        rng = rng_of(case["seed"], 3)
        vel = rng.normal(size=(n, dim))
        xf = vb.xframe(x, t, v=vel[:, 0] if dim == 1 and case["as1d"] else vel)
        require(set(xf.data_vars) == {"x", "v"}, "variables %s", list(xf.data_vars))
        v = vel[1:-1]
        if op == "a":
            r = vb.compute_a(xf)
            a = (x[2:] - 2 * x[1:-1] + x[:-2]) / d**2
        else:
            r = vb.compute_a_from_vel(xf)
            a = (vel[2:] - vel[:-2]) / (2 * d)
            sc2 = max(np.abs(vel).max() / dt, sc2)
        sl = slice(1, -1)
    else:  # external velocities and accelerations
        rng = rng_of(case["seed"], 4)
        v, a = rng.normal(size=(n, dim)), rng.normal(size=(n, dim))
        if dim == 1 and case["as1d"]:
            r = vb.xframe(x[:, 0], t, v=v[:, 0], a=a[:, 0])
        else:
            r = vb.xframe(x, t, v=v, a=a)
        sl = slice(None)
        sc1 = sc2 = 10.0
    require({"x", "v", "a"} <= set(r.data_vars), "variables %s", list(r.data_vars))
    for k in ("x", "v", "a"):
        require(tuple(r[k].dims) == ("time", "dim_x"), "dims of %s: %s", k, r[k].dims)
    close(r["time"], t[sl], "times kept", rtol=1e-14, atol=1e-14)
    close(r["x"], x[sl], "positions kept", rtol=1e-14)
    close(r["v"], v, "velocity", rtol=1e-11, scale=max(sc1, np.abs(v).max() if v.size else 0))
    close(r["a"], a, "acceleration", rtol=1e-11, scale=max(sc2, np.abs(a).max() if a.size else 0))
    require("dt" in r.attrs, "dt lost")
    close(r.attrs["dt"], t[1] - t[0], "dt after preparation", rtol=1e-12)
    require(np.array_equal(xin, path(case)[1]), "the input array has been modified")
    # underdamped concatenation
    if r["x"].shape[0] > 0:
        u = vb.concat_underdamped(r)
        require(u["x"].sizes["dim_x"] == 2 * dim and u["v"].sizes["dim_x"] == 2 * dim, "concat_underdamped sizes")
        close(u["x"].transpose("time", "dim_x"), np.concatenate((as_np(r["x"]), as_np(r["v"])), axis=1), "(x,v)", rtol=1e-15)
        close(u["v"].transpose("time", "dim_x"), np.concatenate((as_np(r["v"]), as_np(r["a"])), axis=1), "(v,a)", rtol=1e-15)
        close(u.attrs["dt"], r.attrs["dt"], "dt", rtol=1e-15)
    return {"nontrivial": n > 3, "labels": [op, "dim%d" % dim, "dask" if case["dask"] else "numpy"]}


@st.composite
def cases(draw):
    return {
        "n": draw(st.integers(3, 40)),
        "dim": draw(st.integers(1, 3)),
        "dt": draw(st.sampled_from([0.1, 0.01, 0.5, 1.0, 0.002, 2.0])),
        "t0": draw(st.sampled_from([0.0, 1.0, -3.0])),
        "path": draw(st.sampled_from(["poly", "walk"])),
        "op": draw(st.sampled_from(["va", "gjf", "jumps", "a_from_vel", "a", "external", "va", "jumps", "steps"])),
        "lam": draw(st.sampled_from([0.5, 0.0, 1.0, 0.3])),
        "default": draw(st.booleans()),
        "dask": draw(st.booleans()),
        "as1d": draw(st.booleans()),
        "L": draw(st.sampled_from([2 * np.pi, 1.0, 360.0])),
        "thr": draw(st.sampled_from([0.875, 0.5, 0.7])),
        "seed": draw(gen.seeds),
    }


@st.composite
def fix_cases(draw):
    return {"n": draw(st.one_of(st.integers(2, 5), st.integers(3, 200))), "dt": draw(st.sampled_from([0.1, 0.02, 0.0005, 1.0, 0.25])), "t0": draw(st.sampled_from([0.0, 5.0])), "round": draw(st.sampled_from([1e-4, 1e-5])), "given": draw(st.sampled_from([-1, 0.05])), "noise": draw(st.booleans()), "uneven": draw(st.sampled_from([0.0, 0.0, 0.5, 1e-2])), "seed": draw(gen.seeds)}


def check_fix(case):
    rng = rng_of(case["seed"], 1)
    n, dt = case["n"], case["dt"]
    t = case["t0"] + dt * np.arange(n)
    if case["noise"]:  # times printed with limited precision
        t = t + rng.uniform(-0.3, 0.3, size=n) * 1e-6
        t[0] = case["t0"]
        t[1] = case["t0"] + dt + 0.2e-6
    if case["uneven"]:  # the first step decides, whatever the others
        t[2:] += case["uneven"] * dt * np.arange(1, n - 1)
    x = rng.normal(size=(n, 2))
    f = vb.xframe(x, t.copy(), fix_time=True, round_time=case["round"], dt=case["given"])
    want_dt = case["given"] if case["given"] > 0 else dt
    close(f.attrs["dt"], want_dt, "fixed dt", rtol=1e-9)
    close(f["time"], want_dt * np.arange(n), "fixed times", rtol=1e-9, atol=1e-12)
    close(f["x"], x, "positions", rtol=1e-15)
    return {"nontrivial": case["noise"], "labels": ["given" if case["given"] > 0 else "rounded"]}


PROPERTY = Property(
    "C07",
    "random trajectories (numpy, dask, 1D or 2D arrays), every way of building a dataset (xframe, compute_va, compute_va_gjf, compute_a, compute_a_from_vel, jumps on a circle, concat_underdamped); compared with finite difference formulas and with the unwrapped path, frame by frame. Non-trivial: more than three frames / noisy times.",
    [SubCheck("prepare", cases, check, 2000), SubCheck("fix_time", fix_cases, check_fix, 600)],
)
