"""C12: the kernel solves the discretised Volterra equation of the method that was asked for."""
import numpy as np
from hypothesis import strategies as st

from .. import ref, volterra
from ..core import Property, SubCheck, as_np, close, require, rng_of


def check_given(case):
    B, X, dB, dX = volterra.synthetic(case)
    est = volterra.blank_estimator(case["dt"], case["n"], case["K"], case["d"])
    require(int(est.model.trunc_ind) == case["n"], "truncation at %s frames instead of %d", est.model.trunc_ind, case["n"])
    volterra.give(est, B.copy(), X.copy(), dB.copy(), dX.copy())
    k0 = None
    if case["k0"] and case["method"] in ("trapz", "second_kind_rect", "second_kind_trapz"):
        k0 = rng_of(case["seed"], 3).normal(size=(case["K"], case["d"])) * (0.0 if case["k0"] == 2 else 1.0)
    m = est.compute_kernel(method=case["method"], k0=k0)
    require(m is est.model, "compute_kernel does not return the model")
    ker = est.model.kernel
    require(ker.dims[0] == "time_kernel" and ker.dims[1] == "dim_basis", "dimensions of the kernel: %s", ker.dims)
    ok = volterra.check_kernel(case["method"], as_np(ker), as_np(ker["time_kernel"]), B, X, dB, dX, case["dt"], k0)
    require(m.method == case["method"], "method %s recorded as %s", case["method"], m.method)
    for a, b, w in ((est.bkbkcorrw, B, "basis"), (est.bkdxcorrw, X, "observable"), (est.dotbkbkcorrw, dB, "derivative"), (est.dotbkdxcorrw, dX, "derivative observable")):
        require(np.array_equal(as_np(a), b), "the %s correlations have been modified", w)
    # a second inversion from the same correlations gives the same kernel
    first = as_np(ker).copy()
    est.compute_kernel(method=case["method"], k0=k0)
    require(np.array_equal(as_np(est.model.kernel), first), "the same inversion done twice gives two kernels")
    labels = [case["method"], "K%d" % case["K"], "d%d" % case["d"], ("k0", "zero k0")[case["k0"] == 2] if k0 is not None else "auto", "even" if case["n"] % 2 == 0 else "odd"]
    if case["method"] not in ("midpoint", "midpoint_w_richardson"):
        check_report(est, first, B, X, case["dt"])
        labels.append("report")
    return {"nontrivial": ok and case["n"] >= 6, "labels": labels}


def check_report(est, ker, B, X, dt):
    """check_volterra_inversion(): trapezoidal integral of the equation of the first kind"""
    got = as_np(est.check_volterra_inversion())
    want = np.zeros_like(X)
    for n in range(1, len(ker)):
        w = dt * np.ones(n + 1)
        w[0] = w[n] = 0.5 * dt
        want[:, :, n] = -volterra.conv(B, ker, n, w)
    sc = np.abs(want).max() + dt * np.abs(B).max() * np.abs(ker).max() + 1e-300
    close(got, want, "check_volterra_inversion", rtol=1e-9, scale=sc)
    diff = as_np(est.check_volterra_inversion(return_diff=True))
    close(diff, np.abs(want - X), "check_volterra_inversion(return_diff=True)", rtol=1e-9, scale=sc + np.abs(X).max())


def check_data(case):
    r = ref.Ref(case)
    if not r.healthy(case["method"]):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    est = ref.estimator(r, dask=case["dask"])
    est.compute_mean_force()
    second = case["method"].startswith("second")
    est.compute_corrs(**({} if second or case["so"] else {"second_order_method": False}))
    est.compute_kernel(method=case["method"])
    o = est.bkdxcorrw.dims[1]
    B = ref.dims_last(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    X = ref.dims_last(est.bkdxcorrw, "dim_basis", o, "time_trunc")
    dX = ref.dims_last(est.dotbkdxcorrw, "dim_basis", o, "time_trunc")
    dB = ref.dims_last(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc") if second or case["so"] else None
    ker = est.model.kernel
    cond = np.linalg.cond(volterra.lead(case["method"], B, dB, r.dt))
    if cond > 1e6:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    volterra.check_kernel(case["method"], as_np(ker), as_np(ker["time_kernel"]), B, X, dB, dX, r.dt)
    return {"nontrivial": True, "labels": [case["method"], case["model"], "second" if dB is not None else "first", "projected" if r.rank_projection else "full"]}


def simpson_weights(n, dt):
    """Simpson's rule over n intervals, the first one with the trapezoidal rule when n is odd."""
    w = np.zeros(n + 1)
    if n % 2:
        w[:2] += 0.5 * dt
    for j in range(n % 2, n, 2):
        w[j : j + 3] += dt / 3.0 * np.array([1.0, 4.0, 1.0])
    return w


def check_simpson(case):
    """The inversions with Simpson's rule of the compiled module."""
    import VolterraBasis.fkernel as fk

    B, X, dB, dX = volterra.synthetic(case)
    dt, n = case["dt"], case["n"]
    k0 = rng_of(case["seed"], 3).normal(size=(case["K"], case["d"]))
    first = case["kind"] == "first"
    L, R = (B, X) if first else (dB, dX)
    ker = np.asarray(fk.kernel_first_kind_simpson(k0, B, X, dt) if first else fk.kernel_second_kind_simpson(k0, B[:, :, 0], dB, dX, dt))
    require(ker.shape == (n, case["K"], case["d"]), "shape %s", ker.shape)
    require(np.array_equal(ker[0], k0), "initial value")
    leads = [dt / 2 * B[:, :, 0], dt / 3 * B[:, :, 0]] if first else [B[:, :, 0] - dt / 2 * dB[:, :, 0], B[:, :, 0] - dt / 3 * dB[:, :, 0]]
    cond = max(np.linalg.cond(m) for m in leads)
    if cond > 1e6 or not np.all(np.isfinite(ker)):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    worst = 0.0
    for i in range(1, n):
        w = simpson_weights(i, dt)
        integral = volterra.conv(L, ker, i, w)
        res = integral + R[:, :, i] if first else B[:, :, 0] @ ker[i] - R[:, :, i] - integral
        worst = max(worst, np.abs(ker[: i + 1]).max())
        sc = np.abs(R[:, :, i]).max() + (np.abs(w).sum() * np.abs(L).max() + (0.0 if first else np.abs(B[:, :, 0]).max())) * worst
        require(np.abs(res).max() <= 1e-10 * cond * sc, "%s kind, simpson: equation of frame %d not satisfied: residual %.3g, terms %.3g", case["kind"], i, np.abs(res).max(), sc)
    return {"nontrivial": n >= 6, "labels": [case["kind"], "even" if n % 2 == 0 else "odd"]}


@st.composite
def simpson_cases(draw):
    c = draw(volterra.corr_case())
    c["kind"] = draw(st.sampled_from(["first", "second"]))
    return c


@st.composite
def given_cases(draw):
    c = draw(volterra.corr_case())
    c["method"] = draw(st.sampled_from(volterra.METHODS))
    c["k0"] = draw(st.sampled_from([0, 1, 2]))
    return c


@st.composite
def data_cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2), max_trajs=2, min_len=24, max_len=90))
    c["trunc"] = draw(st.integers(8, 20))
    c["dask"] = False
    c["so"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(volterra.METHODS))
    return c


PROPERTY = Property(
    "C12",
    "matrix valued correlation functions (1-4 functions, 1-3 observables, 4-40 lags, now and then up to 380, not symmetric) given to an estimator, or computed from random trajectories by every model; every inversion method, initial value given or not. Each frame of the kernel put back in the discretised equation of its method. Non-trivial: the matrix inverted at each step has a condition number below 1e6.",
    [SubCheck("given", given_cases, check_given, 2000), SubCheck("data", data_cases, check_data, 300), SubCheck("simpson", simpson_cases, check_simpson, 300)],
    assumptions=["residuals judged relative to the terms of the equation times the condition number of the leading matrix", "the last frame of the rectangular method, and of the midpoint method with an odd number of lags, is not determined by the equations and not judged"],
)
