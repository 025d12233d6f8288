"""C24: no call ends the interpreter or touches memory outside of its arrays, whatever the sizes and the values."""
import os
import pickle
import sys

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen
from ..core import Property, SubCheck, Violation, as_np, require, rng_of

DONE = 77
METHODS = ["rect", "rectangular", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]


def isolated(func, case):
    """Run func(case) in a child: a death of the child is a violation that can be shrunk."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                res = ("ok", func(case))
            except Violation as v:
                res = ("violation", str(v))
            except BaseException as e:
                res = ("violation", "unexpected %s: %s" % (type(e).__name__, e))
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
            os._exit(DONE)
        finally:
            os._exit(3)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == DONE):
        how = "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit code %d" % os.WEXITSTATUS(status)
        raise Violation("the interpreter was ended by the call (%s)" % how)
    kind, res = pickle.loads(data)
    if kind == "violation":
        raise Violation(res)
    return res


def poison():
    """Fill the small blocks that numpy keeps for the next arrays with NaN: what is not set is seen."""
    for n in range(1, 129):
        keep = [np.full(n, np.nan) for _ in range(8)]
        del keep


def attempt(labels, name, func):
    """A refusal by an exception is fine; returns the result or None."""
    poison()
    try:
        res = func()
    except Violation:
        raise
    except Exception as e:
        labels.append("%s refused" % name)
        return None
    labels.append(name)
    return res


def finite(regular, what, *arrays):
    if regular:
        for a in arrays:
            a = as_np(a)
            require(np.all(np.isfinite(a)) and (a.size == 0 or np.abs(a).max() < 1e100), "%s is not finite although all the inputs are regular", what)


# ---------------------------------------------------------------- inversion on given correlations
def _layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.full(tuple(2 * s for s in a.shape), np.nan)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if how == "f32":
        return a.astype(np.float32)
    return a


def run_inversion(case):
    rng = rng_of(case["seed"], 5)
    n, K, D = case["n"], case["K"], case["D"]
    labels = []
    x = rng.normal(size=(6, 1))
    ds = vb.xframe(x, 0.1 * np.arange(6), v=x + 0.1, a=x - 0.3)
    est = vb.Estimator_gle(ds, vb.Pos_gle_overdamped, gen.build({"kind": "linear", "center": False}), trunc=0.3, saveall=False, verbose=False)
    B = 0.3 * rng.normal(size=(K, K, n))
    B[:, :, 0] = np.eye(K) + 0.1 * B[:, :, 0]
    if n > 1:
        B[:, :, 1] = 0.9 * np.eye(K) + 0.1 * B[:, :, 1]
    if n > 3:
        B[:, :, 3] = 0.8 * np.eye(K) + 0.1 * B[:, :, 3]
    regular = case["values"] == "regular"
    if case["values"] == "zero":
        B[:] = 0.0
    elif case["values"] == "rank":
        B[0] = 0.0
        B[:, 0] = 0.0
    elif case["values"] == "nan":
        B[0, 0] = np.nan
    X, dB, dX = rng.normal(size=(K, D, n)), rng.normal(size=(K, K, n)), rng.normal(size=(K, D, n))
    lay = case["layout"]
    dims_b, dims_x = ("dim_basis'", "dim_basis", "time_trunc"), ("dim_basis", "dim_x", "time_trunc")
    est.bkbkcorrw = xr.DataArray(_layout(B, lay), dims=dims_b)
    est.bkdxcorrw = xr.DataArray(_layout(X, lay), dims=dims_x)
    est.dotbkbkcorrw = xr.DataArray(_layout(dB, lay), dims=dims_b)
    est.dotbkdxcorrw = xr.DataArray(_layout(dX, lay), dims=dims_x)
    est.model.trunc_ind = n
    est.trunc_ind = n
    kw = {} if case["k0"] == 0 else {"k0": rng.normal(size=(K, D))}
    meth = case["method"]
    attempt(labels, meth, lambda: est.compute_kernel(method=meth, **kw))
    ker = est.model.kernel
    if ker is not None:
        finite(regular, "kernel", ker)
        if case["values"] == "zero" and meth in ("rect", "rectangular", "midpoint", "midpoint_w_richardson", "trapz") and ker.shape[0] > 1:
            require(not np.all(np.isfinite(as_np(ker))), "a kernel of ordinary numbers out of singular correlations")
        for diff in (False, True):
            res = attempt(labels, "check", lambda: est.check_volterra_inversion(return_diff=diff))
            if res is not None:
                finite(regular, "residual", res)
        res = attempt(labels, "laplace", lambda: est.model.laplace_transform_kernel(n_points=3))
        if res is not None:
            finite(regular, "Laplace transform", *res)
    return {"nontrivial": K > 1 or n < 4 or not regular, "labels": labels + [case["values"], lay, "n=%d" % min(n, 6)]}


@st.composite
def inversion_cases(draw):
    return {
        "seed": draw(gen.seeds),
        "n": draw(st.sampled_from([3, 2, 4, 5, 6, 7, 8, 9, 10, 13, 20, 1])),
        "K": draw(st.integers(1, 4)),
        "D": draw(st.integers(1, 3)),
        "method": draw(st.sampled_from(METHODS)),
        "k0": draw(st.integers(0, 1)),
        "values": draw(st.sampled_from(["regular", "regular", "regular", "zero", "rank", "nan"])),
        "layout": draw(st.sampled_from(["C", "C", "F", "strided", "f32"])),
    }


# ---------------------------------------------------------------- model with given coefficients
def run_model(case):
    rng = rng_of(case["seed"], 6)
    K, n_mem, L = case["K"], case["n_mem"], case["L"]
    dt = 0.05
    labels = []
    b = gen.build({"kind": "poly", "deg": K - 1 if K > 1 else 1, "fam": "Polynomial", "rc": False}) if K > 1 else gen.build({"kind": "linear", "center": False})
    D = K if case["what"] == "evolve" else case["D"]
    model = vb.Pos_gle_overdamped(b, dt, dim_x=1, dim_obs=D, trunc_ind=n_mem)
    model.force_coeff = xr.DataArray(-0.1 * rng.normal(size=(K, D)), dims=("dim_basis", "dim_x"))
    model.kernel = xr.DataArray(0.1 * rng.normal(size=(n_mem, K, D)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(n_mem) * dt})
    model.method = case["kmethod"]
    if case["what"] == "evolve":
        rows = K if case["rows"] == 0 else case["rows"]
        G0 = np.abs(rng.normal(size=(rows, K)))
        res = attempt(labels, "evolve " + case["emethod"], lambda: model.evolve_volterra(G0, L, method=case["emethod"], trunc_ind=case["trunc"]))
        if res is not None:
            t, G = res
            require(G.shape == (rows, K, L), "evolution of shape %s", G.shape)
            finite(case["emethod"] != "trapz_stab", "evolution", G)
            if rows == K:
                f = attempt(labels, "flux " + case["fmethod"], lambda: model.flux_from_volterra(G, method=case["fmethod"], trunc_ind=case["trunc"]))
                if f is not None:
                    finite(case["emethod"] != "trapz_stab", "flux", *f)
    else:
        x = 0.5 * rng.normal(size=(L, 1))
        obs = rng.normal(size=(L, D))
        ds = vb.xframe(x, dt * np.arange(L), v=x)
        model.L_obs = "obs"
        ds["obs"] = (("time", "dim_x" if D == 1 else "dim_o"), obs)
        if D > 1:
            model.force_coeff = model.force_coeff.rename({"dim_x": "dim_o"})
        kw = {}
        if case["trunc"] is not None:
            kw["trunc_kernel"] = case["trunc"]
        if case["what"] == "noise":
            res = attempt(labels, "noise", lambda: model.compute_noise(ds, start_point=case["start"], end_point=None if case["end"] is None else L - case["end"], **kw))
            if res is not None:
                finite(True, "noise", res[1], res[4])
        else:
            left = {"none": None, "name": "v", "array": rng.normal(size=(L, 2)), "short": rng.normal(size=(max(1, L - 2), 2)), "long": rng.normal(size=(L + 3, 1)), "flat": rng.normal(size=L), "func": (lambda xva: xva["x"] ** 2)}[case["left"]]
            res = attempt(labels, "corrs " + case["left"], lambda: model.compute_corrs_w_noise(ds, left_op=left))
            if res is not None and n_mem <= L:
                finite(case["left"] not in ("short", "long"), "correlations with the noise", res[1])
    return {"nontrivial": n_mem > 1 and L > 1, "labels": labels}


@st.composite
def model_cases(draw):
    return {
        "seed": draw(gen.seeds),
        "K": draw(st.integers(1, 4)),
        "D": draw(st.integers(1, 3)),
        "n_mem": draw(st.one_of(st.integers(1, 4), st.integers(1, 20))),
        "L": draw(st.one_of(st.integers(2, 5), st.integers(2, 25))),
        "what": draw(st.sampled_from(["evolve", "evolve", "noise", "corrs"])),
        "rows": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
        "emethod": draw(st.sampled_from(["rect", "trapz", "trapz_stab"])),
        "fmethod": draw(st.sampled_from(["rect", "trapz", "simpson"])),
        "kmethod": draw(st.sampled_from([None, "rect", "rectangular", "trapz", "second_kind_rect", "second_kind_trapz"])),
        "trunc": draw(st.sampled_from([None, None, 1, 2, 3, 7, 40, 0, -1, -4])),
        "start": draw(st.integers(0, 3)),
        "end": draw(st.sampled_from([None, None, 0, 1, 2])),
        "left": draw(st.sampled_from(["none", "name", "array", "short", "long", "flat", "func"])),
    }


# ---------------------------------------------------------------- whole estimation on short and degenerate data
def run_estimation(case):
    rng = rng_of(case["seed"], 7)
    dim, dt = case["dim"], 0.1
    labels = []
    dss = []
    for n in case["lens"]:
        x = rng.uniform(-1, 1, size=(n, dim))
        if case["data"] == "constant":
            x[:] = 0.3
        elif case["data"] == "two":
            x[:] = np.where(x > 0, 0.5, -0.5)
        v = rng.normal(size=(n, dim)) if case["data"] != "constant" else np.zeros((n, dim))
        dss.append(vb.xframe(x, dt * np.arange(n), v=v, a=rng.normal(size=(n, dim))))
    est = attempt(labels, "estimator", lambda: vb.Estimator_gle(dss, gen.MODELS[case["model"]], gen.build(case["basis"]), trunc=case["trunc"] * dt, saveall=False, verbose=False))
    if est is None:
        return {"nontrivial": False, "labels": labels}
    if attempt(labels, "mean force", est.compute_mean_force) is None:
        est.set_zero_force()
    if attempt(labels, "corrs", est.compute_corrs) is None:
        return {"nontrivial": False, "labels": labels}
    for meth in case["methods"]:
        if attempt(labels, meth, lambda: est.compute_kernel(method=meth)) is not None:
            attempt(labels, "check", est.check_volterra_inversion)
            attempt(labels, "noise", lambda: est.model.compute_noise(dss[0]))
            attempt(labels, "projected", est.compute_projected_corrs)
            attempt(labels, "laplace", est.model.laplace_transform_kernel)
            attempt(labels, "kernel_eval", lambda: est.model.kernel_eval(as_np(dss[0]["x"])[:2]))
    return {"nontrivial": True, "labels": labels + [case["data"]]}


@st.composite
def estimation_cases(draw):
    dim = draw(st.sampled_from([1, 1, 2]))
    basis = draw(st.one_of(gen.linear_spec(), gen.poly_spec(max_deg=3), gen.fourier_spec(max_order=2)) if dim > 1 else st.one_of(gen.linear_spec(), gen.poly_spec(max_deg=3), gen.bspline_spec(kmax=3, periodic=False), gen.indicator_spec(max_states=3, periodic=False)))
    return {
        "seed": draw(gen.seeds),
        "dim": dim,
        "basis": basis,
        "model": draw(st.sampled_from(sorted(gen.MODELS))),
        "lens": draw(st.lists(st.integers(2, 14), min_size=1, max_size=2)),
        "trunc": draw(st.sampled_from([0, 0.5, 1.5, 2.5, 4.5, 9.5, 30])),
        "data": draw(st.sampled_from(["random", "random", "constant", "two"])),
        "methods": draw(st.lists(st.sampled_from(METHODS), min_size=1, max_size=2)),
    }


def sub(name, cases, func, quick):
    return SubCheck(name, cases, lambda case: isolated(func, case), quick)


PROPERTY = Property(
    "C24",
    "the native routines, compiled with bounds checks, NaN in unset variables and the address sanitizer, through the public calls: correlations of any length from one frame on, regular, singular, zero or NaN, in any memory layout; evolution, fluxes, noise and correlations with it for any combination of lengths; whole estimations on a few frames, constant or two-valued data. Every case runs in a child process. Non-trivial: more than one function, few frames or singular values (inversion); kernel and trajectory of more than one frame (model); correlations obtained (estimation).",
    [sub("inversion", inversion_cases, run_inversion, 400), sub("model", model_cases, run_model, 400), sub("estimation", estimation_cases, run_estimation, 240)],
    assumptions=["address sanitizer: " + os.environ.get("VBPBT_ASAN", "off")],
    checked_build=True,
)
