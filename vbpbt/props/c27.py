"""C27: parametric fits of the memory give back the function the data were made with."""
import numpy as np
import scipy.optimize
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen
from ..core import Property, SubCheck, Violation, as_np, close, require, rng_of

FUN = {
    "exp": lambda t, a, b: a * np.exp(-b * t),
    "expnorm": lambda t, b: np.exp(-b * t),
    "doubleexpnorm": lambda t, b, c, al: al * np.exp(-b * t) + (1 - al) * np.exp(-c * t),
    "sech": lambda t, a, b, nu: a / np.cosh(b * t) ** nu,
    "sech_one": lambda t, a, b: a / np.cosh(b * t),
    "sech_two": lambda t, a, b: a / np.cosh(b * t) ** 2,
    "gaussian": lambda t, a, b: a * np.exp(-b * t**2),
}
ALIAS = {"exp": ["exp", "exponential"], "expnorm": ["expnorm", "exp_norm"], "doubleexpnorm": ["doubleexpnorm", "double_exp_norm"]}


def params(rng, kind, dt, n, scale):
    """parameters such that the function decays in the window and is resolved by the time step"""
    T = n * dt
    a = scale * rng.uniform(0.5, 2.0)
    r = rng.uniform(2.0, 6.0) / T
    if kind == "exp":
        return [a, r]
    if kind == "expnorm":
        return [r]
    if kind == "doubleexpnorm":
        return [0.25 * r, 4 * r, rng.uniform(0.3, 0.7)]
    if kind == "sech":
        return [a, r, rng.uniform(1.0, 2.0)]
    if kind == "gaussian":
        return [a, r * r]
    return [a, r]


def as_given(a, how, dims):
    return xr.DataArray(a.copy(), dims=dims) if how else a.copy()


def check_fit(case):
    rng = rng_of(case["seed"], 270)
    kind, n, dt = case["kind"], case["n"], case["dt"]
    t = (np.arange(n) + case["t0"]) * dt
    if case["uneven"]:
        t[2:] += dt * rng.uniform(-0.3, 0.3, size=n - 2)
    p = params(rng, kind, dt, n, case["scale"])
    y = FUN[kind](t, *p)
    if case["noise"]:
        y = y + case["noise"] * abs(y[0]) * rng.normal(size=n)
    names = ALIAS.get(kind, [kind])
    name = names[case["alias"] % len(names)]
    data = y.copy()
    times = t[:, None] if case["column"] else t.copy()
    ty, popt = vb.memory_fit(times, data, type=name) if not (name == "exp" and case["alias"] == 0) else vb.memory_fit(times, data)
    require(np.array_equal(data, y) and np.array_equal(times.ravel(), t), "the data have been modified")
    fine = np.linspace(t[0], t[-1], 37)
    sc = np.abs(y).max()
    got = vb.memory_fit_eval(t, (ty, popt))
    if case["noise"]:
        # least squares: not worse than the parameters the data were made with
        best = np.sum((FUN[kind](t, *p) - y) ** 2)
        require(np.sum((got - y) ** 2) <= best * (1 + 1e-9), "%s: sum of squares %.6g, %.6g with the parameters of the data", kind, np.sum((got - y) ** 2), best)
        # and the sum of squares cannot be made smaller by going on from there
        more = scipy.optimize.least_squares(lambda q: FUN[kind](t, *q) - y, popt, xtol=1e-15, ftol=1e-15, gtol=1e-15, x_scale=np.abs(popt) + 1e-12)
        require(np.sum((got - y) ** 2) <= 2 * more.cost * (1 + 1e-6), "%s: sum of squares %.8g, %.8g is reached from there", kind, np.sum((got - y) ** 2), 2 * more.cost)
    else:
        close(got, y, "%s fitted at the data" % kind, rtol=1e-5, scale=sc)
        close(vb.memory_fit_eval(fine, (ty, popt)), FUN[kind](fine, *p), "%s fitted between the data" % kind, rtol=2e-5, scale=sc)
        if kind not in ("doubleexpnorm", "sech"):
            close(np.abs(popt), np.abs(p), "parameters of %s" % kind, rtol=1e-4)
    require(np.array_equal(vb.memory_fit_eval(t, popt, type=ty), got), "type given in the parameters or apart")
    return {"nontrivial": True, "labels": [kind, "noise" if case["noise"] else "exact"]}


def check_eval(case):
    rng = rng_of(case["seed"], 271)
    kind = case["kind"]
    p = params(rng, kind, 1.0, 10, case["scale"])
    t = rng.uniform(0, 12, size=case["n"])
    names = ALIAS.get(kind, [kind])
    name = names[case["alias"] % len(names)]
    want = FUN[kind](t, *p)
    close(vb.memory_fit_eval(t, (name, p)), want, name, rtol=1e-12)
    close(vb.memory_fit_eval(t, np.array(p), type=name), want, name, rtol=1e-12)
    close(vb.memory_fit_eval(t[:1], (name, p)), want[:1], name + " at one time", rtol=1e-12)
    # one set of parameters per component of the kernel
    K, d = case["K"], case["d"]
    pp = [[params(rng, kind, 1.0, 10, case["scale"]) for _ in range(K)] for _ in range(d)]
    got = vb.memory_kernel_eval(t, (name, pp)) if case["alias"] else vb.memory_kernel_eval(t, pp, type=name)
    want = np.stack([np.stack([FUN[kind](t, *pp[j][k]) for k in range(K)], axis=-1) for j in range(d)], axis=-1)
    close(got, want, "kernel of type " + name, rtol=1e-12)
    for fun in (lambda: vb.memory_fit_eval(t, ("nothing", p)), lambda: vb.memory_fit(t, want[:, 0, 0], type="nothing"), lambda: vb.memory_fit(t, want[:, 0], type=name)):
        try:
            fun()
        except ValueError:
            continue
        raise Violation("no error for an unknown type or data of the wrong shape")
    return {"nontrivial": K * d > 1, "labels": [kind]}


def check_kernel(case):
    rng = rng_of(case["seed"], 272)
    kind, n, dt, K, d = case["kind"], case["n"], case["dt"], case["K"], case["d"]
    t = np.arange(n) * dt
    pp = [[params(rng, kind, dt, n, case["scale"]) for _ in range(K)] for _ in range(d)]
    ker = np.stack([np.stack([FUN[kind](t, *pp[j][k]) for k in range(K)], axis=-1) for j in range(d)], axis=-1)
    given = as_given(ker, case["xarray"], ("time_kernel", "dim_basis", "dim_x"))
    times = as_given(t, case["xarray"], ("time_kernel",))
    fit = vb.memory_fit_kernel(times, given, type=kind)
    fine = np.linspace(0, t[-1], 29)
    want = np.stack([np.stack([FUN[kind](fine, *pp[j][k]) for k in range(K)], axis=-1) for j in range(d)], axis=-1)
    close(vb.memory_kernel_eval(fine, fit), want, "fitted kernel", rtol=2e-5, scale=np.abs(ker).max())
    for j in range(d):
        for k in range(K):
            one = vb.memory_fit(t, ker[:, k, j], type=kind)
            close(vb.memory_fit_eval(fine, one), vb.memory_fit_eval(fine, fit[1][j][k], type=fit[0]), "component %d,%d of the kernel" % (k, j), rtol=1e-6, scale=np.abs(ker[:, k, j]).max())
    require(np.array_equal(as_np(given), ker), "the kernel has been modified")
    return {"nontrivial": K * d > 1, "labels": [kind, "K%d" % K, "d%d" % d]}


def check_limit(case):
    """long time limit of the integral of the memory: fit of a + b / t over the second half of the times"""
    from VolterraBasis.fit_memory import asymptotic_fit_integral

    rng = rng_of(case["seed"], 273)
    n, dt = case["n"], case["dt"]
    t = dt * np.cumsum(rng.uniform(0.4, 1.6, size=n)) if case["uneven"] else dt * (1 + np.arange(n))
    y = case["scale"] * (np.exp(-t / (dt * n * rng.uniform(0.05, 0.5))) + rng.normal(size=n) * 0.02)
    a, b = asymptotic_fit_integral(t.copy(), y.copy())
    I = np.concatenate(([0.0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(t))))[n // 2 :]
    u = t[n // 2 :]
    sol = np.linalg.lstsq(np.stack((np.ones(len(u)), 1 / u), axis=1), I, rcond=None)[0]
    sc = np.abs(I).max()
    close(a + b / u, sol[0] + sol[1] / u, "fit of the integral of the memory", rtol=1e-5, scale=sc)
    # friction: integral of each component, exact for parabolas over an even number of steps
    from VolterraBasis.fit_memory import markovian_friction

    K, d = case["K"], case["d"]
    t = dt * np.arange(2 * (n // 2) + 1)
    if case["uneven"]:  # the integral of parabolas is exact all the same
        t[1:-1] += dt * rng.uniform(-0.3, 0.3, size=len(t) - 2)
    T = t[-1]
    c = rng.normal(size=(3, K, d)) * case["scale"]
    ker = c[0][None] + c[1][None] * (t / T)[:, None, None] + c[2][None] * ((t / T) ** 2)[:, None, None]
    got = np.array(markovian_friction(t[:, None] if case["seed"] % 2 else t, ker)[1])
    require(got.shape == (d, K), "shape of the frictions %s", got.shape)
    close(got.T, T * (c[0] + c[1] / 2 + c[2] / 3), "integral of the kernel", rtol=1e-11, scale=T * np.abs(c).sum())
    return {"nontrivial": True, "labels": ["limit", "uneven" if case["uneven"] else "even"]}


def limit_cases():
    return st.fixed_dictionaries({"n": st.integers(8, 90), "dt": st.sampled_from([1.0, 0.1, 0.02]), "uneven": st.booleans(), "K": st.integers(1, 3), "d": st.integers(1, 3), "scale": st.sampled_from([1.0, -2.0, 30.0]), "seed": gen.seeds})


KINDS = sorted(FUN)


@st.composite
def cases(draw, kinds=tuple(KINDS)):
    return {"kind": draw(st.sampled_from(list(kinds))), "n": draw(st.integers(30, 120)), "dt": draw(st.sampled_from([1.0, 0.1, 0.02])), "scale": draw(st.sampled_from([1.0, -2.0, 30.0, 0.01])), "alias": draw(st.integers(0, 1)), "noise": draw(st.sampled_from([0.0, 0.0, 0.02])), "column": draw(st.booleans()), "t0": draw(st.sampled_from([0, 0, 0, 1, 4])), "uneven": draw(st.sampled_from([False, False, True])), "K": draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 6])), "d": draw(st.integers(1, 3)), "xarray": draw(st.booleans()), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C27",
    "functions of every type with random parameters, resolved by the time step and decaying in the window, exact or noisy: the fit compared with the data, between the data and parameter by parameter, or with the sum of squares of the generating parameters; evaluation compared with closed formulas; kernels with one function per component. Non-trivial: every fit; kernels of more than one component.",
    [SubCheck("fit", cases, check_fit, 700), SubCheck("eval", cases, check_eval, 400), SubCheck("kernel", cases, check_kernel, 150), SubCheck("limit", limit_cases, check_limit, 150)],
    assumptions=["the decay happens in the window and is resolved, so that the built-in starting point of the fit is good enough"],
)
