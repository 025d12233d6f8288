"""C32: options that are left out, spelled otherwise or only about output do not change results."""
import contextlib
import os
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen, ref
from ..core import Property, SubCheck, as_np, require, rng_of


def same(a, b, what, rtol=1e-12):
    """Same structure, same numbers."""
    if isinstance(a, xr.Dataset) or isinstance(b, xr.Dataset):
        require(type(a) is type(b) and set(a.variables) == set(b.variables), "%s: variables %s and %s", what, sorted(map(str, a.variables)), sorted(map(str, b.variables)))
        same(dict(a.attrs), dict(b.attrs), what + " attributes")
        for k in a.variables:
            same(a[k], b[k], "%s %s" % (what, k), rtol)
    elif isinstance(a, xr.DataArray) or isinstance(b, xr.DataArray):
        require(type(a) is type(b) and a.dims == b.dims, "%s: dimensions %s and %s", what, getattr(a, "dims", None), getattr(b, "dims", None))
        same(as_np(a), as_np(b), what, rtol)
    elif isinstance(a, dict):
        require(a.keys() == b.keys(), "%s: %s and %s", what, sorted(a), sorted(b))
        for k in a:
            same(a[k], b[k], "%s %s" % (what, k), rtol)
    elif isinstance(a, (tuple, list)):
        require(len(a) == len(b), "%s: %d and %d results", what, len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            same(p, q, "%s[%d]" % (what, i), rtol)
    elif isinstance(a, (str, type(None), bool)):
        require(a == b, "%s: %r and %r", what, a, b)
    else:
        a, b = np.asarray(a), np.asarray(b)
        require(a.shape == b.shape, "%s: shapes %s and %s", what, a.shape, b.shape)
        if a.dtype.kind in "OSUb":
            require(np.array_equal(a, b), "%s: %s and %s", what, a, b)
            return
        s = np.abs(b[np.isfinite(b)]).max() if np.any(np.isfinite(b)) else 0.0
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * s)
        require(np.all(ok), "%s: the results differ, %s and %s", what, a[~ok][:2].tolist(), b[~ok][:2].tolist())


# ------------------------------------------------------------------ bases
def subset(case, opts):
    """Which of the options are spelled out at their documented value (at least one)."""
    keys = sorted(opts)
    return {k: opts[k] for i, k in enumerate(keys) if (case["mask"] >> i) & 1} or opts


def basis_all(b, X, D, anti=True):
    b = b.fit(D)
    res = [b.n_output_features_, bool(b.const_removed), b.basis(X), b.deriv(X)]
    with contextlib.suppress(NotImplementedError):
        res.append(b.hessian(X))
    if anti:
        with contextlib.suppress(NotImplementedError):
            res.append(b.antiderivative(X))
    return res


def check_bases(case):
    rng = rng_of(case["seed"], 1)
    what, dim = case["what"], case["dim"]
    if what in ("bspline", "indicator"):
        dim = 1
    X = rng.uniform(-1.5, 2.0, size=(15, dim))
    D = bf.DescribeResult(15, (-1.6 * np.ones(dim), 2.1 * np.ones(dim)), rng.normal(size=dim), np.ones(dim), np.zeros(dim), np.zeros(dim))
    t, c = gen.splinefct_data({"seed": case["seed"], "k": 3, "n": 4, "lo": -4.0, "hi": 4.0})
    bounds = [[-1.0, -0.5], [0.25, 1.0]]
    k = case["k"]
    table = {
        "linear": (bf.LinearFeatures, {}, {"to_center": False}),
        "poly": (bf.PolynomialFeatures, {}, {"deg": 1, "polynom": np.polynomial.Polynomial, "remove_const": True}),
        "poly deg": (bf.PolynomialFeatures, {"deg": 1 + k}, {"polynom": np.polynomial.Polynomial, "remove_const": True}),
        "poly fam": (bf.PolynomialFeatures, {"deg": 1 + k, "polynom": np.polynomial.Legendre}, {"remove_const": True}),
        "poly const": (bf.PolynomialFeatures, {"remove_const": False}, {"deg": 1, "polynom": np.polynomial.Polynomial}),
        "fourier": (bf.FourierFeatures, {}, {"order": 1, "freq": 1.0, "remove_const": True}),
        "fourier order": (bf.FourierFeatures, {"order": 1 + k}, {"freq": 1.0, "remove_const": True}),
        "fourier freq": (bf.FourierFeatures, {"freq": 1.7}, {"order": 1, "remove_const": True}),
        "fourier const": (bf.FourierFeatures, {"remove_const": False, "order": 1 + k}, {"freq": 1.0}),
        "splinefct": (bf.SplineFctFeatures, {"knots": t, "coeffs": c}, {"k": 3, "periodic": False}),
        "bspline": (bf.BSplineFeatures, {}, {"n_knots": 5, "k": 3, "periodic": False, "remove_const": True}),
        "bspline n": (bf.BSplineFeatures, {"n_knots": 5 + k}, {"k": 3, "periodic": False, "remove_const": True}),
        "bspline k": (bf.BSplineFeatures, {"n_knots": 6 + k, "k": 2}, {"periodic": False, "remove_const": True}),
        "bspline const": (bf.BSplineFeatures, {"n_knots": 6 + k, "remove_const": False}, {"k": 3, "periodic": False}),
        "bspline periodic": (bf.BSplineFeatures, {"n_knots": 6 + k, "periodic": True}, {"k": 3, "remove_const": True}),
        "indicator": (bf.SmoothIndicatorFeatures, {"states_boundary": bounds}, {"boundary_type": "tricube", "periodic": False}),
        "indicator type": (bf.SmoothIndicatorFeatures, {"states_boundary": bounds, "boundary_type": "triweight"}, {"periodic": False}),
        "indicator periodic": (bf.SmoothIndicatorFeatures, {"states_boundary": bounds, "periodic": True}, {"boundary_type": "tricube"}),
    }
    cls, kw, opts = table[what]
    if what.split()[0] in ("bspline", "indicator") and dim != 1:
        X, D = X[:, :1], bf.DescribeResult(15, (-1.6 * np.ones(1), 2.1 * np.ones(1)), np.zeros(1), np.ones(1), np.zeros(1), np.zeros(1))
    use = subset(case, opts)
    a, b = cls(**kw), cls(**kw, **use)
    same(basis_all(a, X, D), basis_all(b, X, D), "%s with %s" % (what, ", ".join("%s=%s" % (q, getattr(v, "__name__", v)) for q, v in sorted(use.items()))))
    same(a.deriv(X, deriv_order=1), a.deriv(X), what + " deriv")
    if not what.startswith("indicator"):
        same(a.antiderivative(X, order=1), a.antiderivative(X), what + " antiderivative")
    same(a.deriv(X, deriv_order=2).reshape(len(X), -1), a.hessian(X).reshape(len(X), -1), what + " second derivative")
    if what.split()[0] in ("linear", "poly", "fourier", "splinefct"):  # nothing is read from the data: a model without estimator has the same basis
        m = vb.Pos_gle(cls(**kw), 0.1, dim_x=X.shape[1])
        same([m.basis.n_output_features_, m.basis.basis(X), m.basis.deriv(X)], [a.n_output_features_, a.basis(X), a.deriv(X)], what + " in a model of its own")
        require(m.N_basis_elt == a.n_output_features_, "%d elements, %d in the model", a.n_output_features_, m.N_basis_elt)
        m = vb.Pos_gle(bf.LinearFeatures(to_center=True), 0.1, dim_x=X.shape[1])
        same(m.basis.basis(X), X, "positions, without data they have no centre")
    if what == "bspline n":  # positions of the knots: the range of the data unless told otherwise
        q = bf.BSplineFeatures(n_knots=5 + k).fit(D, knots=np.linspace(-1.6, 2.1, 5 + k))
        same(basis_all(bf.BSplineFeatures(n_knots=5 + k), X, D), [q.n_output_features_, bool(q.const_removed), q.basis(X), q.deriv(X), q.hessian(X), q.antiderivative(X)], what + " knots")
    return {"nontrivial": True, "labels": [what, "dim%d" % X.shape[1]]}


BASES = ["linear", "poly", "poly deg", "poly fam", "poly const", "fourier", "fourier order", "fourier freq", "fourier const", "splinefct", "bspline", "bspline n", "bspline k", "bspline const", "bspline periodic", "indicator", "indicator type", "indicator periodic"]


def bases_cases():
    return st.fixed_dictionaries({"what": st.sampled_from(BASES), "dim": st.integers(1, 3), "seed": gen.seeds, "k": st.integers(0, 4), "mask": st.integers(1, 15)})


# ------------------------------------------------------------------ trajectories, tools
def check_tools(case):
    rng = rng_of(case["seed"], 2)
    what, n, dim = case["what"], case["n"], case["dim"]
    dt = case["dt"]
    t = np.arange(n) * dt
    # steps within a turn of a circle, some of them nearly a whole turn
    x = np.cumsum(rng.choice([-1.0, 1.0], size=(n, dim)) * rng.uniform(0, 6.2, size=(n, dim)), axis=0)
    pi = np.pi
    if what == "xframe":
        opts = subset(case, {"v": None, "a": None, "fix_time": False, "round_time": 1e-4, "dt": -1})
        off = t + 0.37 if case["mask"] % 2 else t * (1 + 1e-6)
        d, e = vb.xframe(x, off), vb.xframe(x, off, **opts)
    elif what == "xframe fix":
        off = 0.37 + t * (1 + 1e-6)
        d, e = vb.xframe(x, off, fix_time=True), vb.xframe(x, off, fix_time=True, **subset(case, {"round_time": 1e-4, "dt": -1}))
    elif what == "va":
        f = vb.xframe(x, t)
        d, e = vb.compute_va(f), vb.compute_va(f, **subset(case, {"correct_jumps": False, "jump": 2 * pi, "jump_thr": 1.75 * pi, "lamb_finite_diff": 0.5}))
    elif what == "va jumps":
        f = vb.xframe(x, t)
        d, e = vb.compute_va(f, correct_jumps=True), vb.compute_va(f, correct_jumps=True, **subset(case, {"jump": 2 * pi, "jump_thr": 1.75 * pi, "lamb_finite_diff": 0.5}))
    elif what == "gjf":
        f = vb.xframe(x, t)
        d, e = vb.compute_va_gjf(f), vb.compute_va_gjf(f, **subset(case, {"correct_jumps": False, "jump": 2 * pi, "jump_thr": 1.75 * pi}))
    elif what == "gjf jumps":
        f = vb.xframe(x, t)
        d, e = vb.compute_va_gjf(f, correct_jumps=True), vb.compute_va_gjf(f, correct_jumps=True, **subset(case, {"jump": 2 * pi, "jump_thr": 1.75 * pi}))
    elif what == "fe":
        y = rng.normal(size=1500)
        f = vb.compute_va(vb.xframe(y, np.arange(len(y)) * dt))
        kw = [{"hist": True}, {"bins": 15}, {"bins": 15, "kT": 2.494}, {"hist": True, "bins": 20}][case["k"] % 4]
        full = {"bins": 150, "kT": 2.494, "hist": False}
        d, e = vb.compute_1d_fe([f], **kw), vb.compute_1d_fe([f], **{**full, **kw})
    elif what == "corr":
        a = rng.normal(size=(dim, n))
        d = [vb.correlation_fft(a), vb.correlation_direct(a)]
        e = [vb.correlation_fft(a, None, None), vb.correlation_direct(a, b=None, trunc=n + case["k"])]
        if case["mask"] % 2:
            e = [vb.correlation_fft(a, trunc=n), vb.correlation_direct(a, None, n)]
    elif what == "fit":
        T = np.arange(60) * 0.1
        data = 1.3 * np.exp(-0.7 * T) + 0.01 * rng.normal(size=60)
        d = [vb.memory_fit(T, data), vb.memory_fit_eval(T, vb.memory_fit(T, data)), vb.memory_fit_kernel(T, data[:, None, None]), vb.memory_kernel_eval(T, vb.memory_fit_kernel(T, data[:, None, None]))]
        p = vb.memory_fit(T, data, "exp")
        q = vb.memory_fit_kernel(T, data[:, None, None], type="exp")
        e = [p, vb.memory_fit_eval(T, p[1], type="exp"), q, vb.memory_kernel_eval(T, q[1], "exp")]
    elif what == "prony":
        T = np.arange(41) * 0.1
        data = np.exp(-0.7 * T) + 0.5 * np.exp(-3 * T) * np.cos(4 * T) + case["k"] * 1e-3 * rng.normal(size=41)
        N = 2 + case["k"]
        d = [vb.prony_fit_times_serie(data, 0.1, N_keep=N), vb.prony_inspect_data(data, N_keep=N), vb.prony_fit_kernel(T, data[:, None, None], N_keep=N)]
        e = [vb.prony_fit_times_serie(data, 0.1, None, N, True), vb.prony_inspect_data(data, thres=None, N_keep=N), vb.prony_fit_kernel(T, data[:, None, None], None, N)]
        d.append(vb.prony_inspect_data(data))
        e.append(vb.prony_inspect_data(data, None, None))
    elif what == "noise":
        m = rng.normal(size=(6, 6))
        m = m @ m.T
        np.random.seed(case["seed"] % 2**31)
        d = [vb.KarhunenLoeveNoiseGenerator(m, 0.1).generate(6)]
        np.random.seed(case["seed"] % 2**31)
        e = [vb.KarhunenLoeveNoiseGenerator(m, 0.1, rng=np.random.normal).generate(size=6)]
        d.append(vb.KarhunenLoeveNoiseGenerator(m, 0.1, rng=np.random.default_rng(3).normal).generate())
        e.append(vb.KarhunenLoeveNoiseGenerator(m, 0.1, rng=np.random.default_rng(3).normal).generate(6))
    elif what == "mesh":
        y = rng.normal(size=(130, 1))
        d = [bf.data_driven_line(y), bf.centroid_driven_line(y)] if case["k"] == 0 else [bf.data_driven_line(y)]
        e = [bf.data_driven_line(y, 10, None, None), bf.centroid_driven_line(y, 100)] if case["k"] == 0 else [bf.data_driven_line(y, bins=10)]
        z = rng.normal(size=(130, 2))
        d.append(bf.centroid_driven_mesh(z, bins=4))
        e.append(bf.centroid_driven_mesh(z, bins=4, **subset(case, {"boundary_vertices": None, "simplify_hull": 0.01, "verbose": bool(case["mask"] & 1)})))
    same(d, e, what)
    return {"nontrivial": True, "labels": [what]}


TOOLS = ["xframe", "xframe fix", "va", "va jumps", "gjf", "gjf jumps", "fe", "corr", "fit", "prony", "noise", "mesh"]


def tools_cases():
    return st.fixed_dictionaries({"what": st.sampled_from(TOOLS), "n": st.integers(6, 40), "dim": st.integers(1, 3), "dt": st.sampled_from([0.1, 0.01, 0.5]), "seed": gen.seeds, "k": st.integers(0, 3), "mask": st.integers(1, 15)})


# ------------------------------------------------------------------ estimator and model
CORRS = ["bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw"]
STATE = ["force_coeff", "gram_force", "kernel", "P_range", "method", "trunc_ind", "dt", "L_obs", "dim_obs", "dim_x", "rank_projection", "N_basis_elt_force", "N_basis_elt_kernel"]


def state(est):
    return {k: getattr(est.model, k) for k in STATE}


def check_estimator(case):
    r = ref.Ref(case)
    if not r.healthy():
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    what = case["what"]
    Model = gen.MODELS[case["model"]]
    lobs = {"L_obs": "obs"} if r.obs is not None else {}
    tr = (case["trunc"] + 0.5) * r.dt

    def run(est, corrs=None, kern=None):
        est.compute_mean_force()
        est.compute_corrs(**(corrs or {}))
        est.compute_kernel(**(kern or {"method": "trapz"}))
        return [state(est), [getattr(est, k) for k in CORRS[:2]]]

    def make(**kw):
        kw.setdefault("saveall", False)
        kw.setdefault("verbose", False)
        kw.setdefault("trunc", tr)
        return vb.Estimator_gle(ref.trajs(r), Model, ref.new_basis(case), **{**lobs, **kw})

    if what == "constructor":
        if case["k"] % 2:  # a truncation longer than the trajectories
            tr = tr * (0.5 + 0.5 * case["k"]) * max(r.lens) / case["trunc"]
        opts = subset(case, {"n_jobs": 1, "prefix": "", "L_obs": lobs.get("L_obs", None), "verbose": True})
        opts.update(lobs)
        a, b = run(make(verbose=False)), run(make(**opts))
    elif what == "observable":
        a, b = run(make()), run(make(L_obs=r.lobs))
    elif what == "trunc":
        kw = {"saveall": False, "verbose": False, **lobs}
        p = vb.Estimator_gle(ref.trajs(r), Model, ref.new_basis(case), **kw)
        q = vb.Estimator_gle(ref.trajs(r), Model, ref.new_basis(case), trunc=1.0, **kw)
        require(int(p.model.trunc_ind) == int(q.model.trunc_ind), "truncation after %d frames by default, %d for 1.0", p.model.trunc_ind, q.model.trunc_ind)
        want = min(min(r.lens), int(np.floor(1.0 / r.dt + 1e-6)) + 1)
        require(int(p.model.trunc_ind) == want, "truncation after %d frames, not %d", p.model.trunc_ind, want)
        a = b = 0
    elif what == "single":  # one trajectory is the list of this trajectory
        kw = {"saveall": False, "verbose": False, "trunc": tr, **lobs}
        a = run(vb.Estimator_gle(ref.trajs(r)[0], Model, ref.new_basis(case), **kw))
        b = run(vb.Estimator_gle(ref.trajs(r)[:1], Model, ref.new_basis(case), **kw))
    elif what == "saveall":
        old = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="vbpbt_c32_") as d:
            try:
                os.chdir(d)
                kw = {"verbose": False, "trunc": tr, **lobs}
                p, q = vb.Estimator_gle(ref.trajs(r), Model, ref.new_basis(case), **kw), vb.Estimator_gle(ref.trajs(r), Model, ref.new_basis(case), saveall=False, **kw)
                b = run(q)
                require(os.listdir(d) == [], "files %s are written although saveall is false", os.listdir(d))
                a = run(p)
                require(sorted(os.listdir(d)) == ["corrs.nc", "kernel.nc"], "files %s", os.listdir(d))
            finally:
                os.chdir(old)
    elif what == "corrs":
        opts = subset(case, {"large": False, "rank_tol": None, "method": "fft", "vectorize": False, "second_order_method": True})
        p, q = make(), make()
        a, b = run(p), run(q, corrs=opts)
        a.append([getattr(p, k) for k in CORRS])
        b.append([getattr(q, k) for k in CORRS])
    elif what == "kernel":
        a, b = run(make(), kern={"k0": None}), run(make(), kern={"method": "rectangular"})
    elif what == "rect":
        a, b = run(make(), kern={"method": "rect"}), run(make(), kern={"method": "rectangular"})
        a[0].pop("method"), b[0].pop("method")
    elif what == "k0":  # the initial value of the kernel is the one computed, when left out
        p = make()
        p.compute_mean_force()
        p.compute_corrs()
        k0 = np.linalg.solve(as_np(p.bkbkcorrw.transpose("dim_basis'", "dim_basis", "time_trunc"))[:, :, 0], as_np(p.dotbkdxcorrw)[:, :, 0])
        m = ["trapz", "second_kind_rect", "second_kind_trapz"][case["k"] % 3]
        p.compute_kernel(method=m)
        a = p.model.kernel.copy()
        b = p.compute_kernel(method=m, k0=k0).kernel
        g = np.maximum.accumulate(np.abs(as_np(b)).reshape(len(b), -1).max(axis=1))[:, None, None]
        same(as_np(a) / g, as_np(b) / g, what, 1e-6)
        return {"nontrivial": True, "labels": [what, m]}
    else:
        raise ValueError(what)
    same(a, b, what, 1e-9 if what == "corrs" else 1e-12)
    return {"nontrivial": True, "labels": [what, case["model"]]}


ESTIM = ["constructor", "observable", "trunc", "single", "saveall", "corrs", "kernel", "rect", "k0"]


@st.composite
def estimator_cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2), min_len=30, max_len=70, max_trajs=2))
    c["trunc"] = draw(st.integers(6, 12))
    c["what"] = draw(st.sampled_from(ESTIM))
    if c["what"] == "single":
        c["traj"]["lens"] = c["traj"]["lens"][:1]
    c["k"], c["mask"] = draw(st.integers(0, 5)), draw(st.integers(1, 31))
    return c


def check_model(case):
    r = ref.Ref(case)
    if not r.healthy():
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    ds = ref.trajs(r)
    est = ref.estimator(r)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method=["rect", "trapz"][case["k"] % 2])
    m = est.model
    n = int(m.trunc_ind)
    what, name = case["what"], case["model"]
    d = ds[0]
    skip = {"nontrivial": False, "labels": ["does not apply"]}
    pts = np.linspace(-0.8, 0.8, 5 * r.dim).reshape(-1, r.dim)
    if what == "noise":
        a, b = m.compute_noise(d), m.compute_noise(d, **subset(case, {"trunc_kernel": n, "start_point": 0, "end_point": None}))
    elif what == "noise end":
        a, b = m.compute_noise(d), m.compute_noise(d, end_point=len(d["time"]))
    elif what == "corrs_w_noise":
        a, b = m.compute_corrs_w_noise(d), m.compute_corrs_w_noise(d, left_op=None)
    elif what == "projected":
        a, b = est.compute_projected_corrs(), est.compute_projected_corrs(left_op=None)
    elif what == "force":
        if name == "Pos_gle_with_friction":
            return skip
        a, b = m.force_eval(pts), m.force_eval(pts, coeffs=m.force_coeff)
    elif what == "kernel_eval":
        if name == "Pos_gle_hybrid":
            return skip
        a, b = m.kernel_eval(pts), m.kernel_eval(pts, coeffs_ker=m.kernel)
    elif what == "laplace":
        a, b = m.laplace_transform_kernel(), m.laplace_transform_kernel(**subset(case, {"s_start": 0.0, "s_end": 1.0 / m.dt, "n_points": n}))
    elif what == "pmf":
        if r.dim > 1 or m.dim_obs > 1 or case["basis"]["kind"] in ("indicator", "combine", "tensor"):
            return skip
        if case["mask"] & 1 and name != "Pos_gle_overdamped":
            est.compute_effective_mass()
        co = m.force_coeff[: m.N_basis_elt] if name == "Pos_gle_with_friction" else m.force_coeff
        opts = subset(case, {"kT": 1.0, "set_zero": True, "coeffs": co})
        a, b = m.pmf_eval(pts), m.pmf_eval(pts, **opts)
    elif what == "pmf num":
        if r.dim > 1 or m.dim_obs > 1 or name == "Pos_gle_with_friction" or m.rank_projection:
            return skip
        est.compute_pos_effective_mass()
        a, b = m.pmf_num_int_eval(pts), m.pmf_num_int_eval(pts, **subset(case, {"kT": 1.0, "set_zero": True}))
    elif what == "goal":
        a, b = m.basis_vector(d), m.basis_vector(d, compute_for="corrs")
    elif what == "mean":
        a, b = est.compute_basis_mean(), est.compute_basis_mean(basis_type="force")
    elif what == "check":
        if m.kernel.shape[0] > est.bkdxcorrw.shape[-1]:
            return skip
        a, b = est.check_volterra_inversion(), est.check_volterra_inversion(return_diff=False)
    elif what == "flux":
        K = m.kernel.shape[1]
        rng = rng_of(case["traj"]["seed"], 3)
        C, f = rng.normal(size=(K, K, 9)), rng.normal(size=(K, m.kernel.shape[2]))
        opts = subset(case, {"method": "trapz", "trunc_ind": None, "corrs_kernel": C, "kernel": m.kernel})
        a, b = m.flux_from_volterra(C, force_coeff=f), m.flux_from_volterra(C, force_coeff=f, **opts)
    elif what == "points":  # points given as a list, an array or a dataset of positions
        if name == "Pos_gle_with_friction":
            return skip
        a = m.force_eval(pts)
        b = m.force_eval([pts.tolist(), pts.ravel(), xr.Dataset({"x": (("time", "dim_x"), pts)})][case["mask"] % 3])
    elif what == "save":
        a = m.save_model()
        type(m).load_model(m.basis, a)
        b = m.save_model()
    same(a, b, what, 1e-10)
    return {"nontrivial": True, "labels": [what, name]}


MODEL = ["noise", "noise end", "corrs_w_noise", "projected", "force", "kernel_eval", "laplace", "pmf", "pmf num", "goal", "mean", "check", "flux", "points", "save"]


@st.composite
def model_cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 1, 2), min_len=30, max_len=70, max_trajs=2))
    c["trunc"] = draw(st.integers(6, 12))
    c["what"] = draw(st.sampled_from(MODEL))
    c["k"], c["mask"] = draw(st.integers(0, 5)), draw(st.integers(1, 15))
    return c


PROPERTY = Property(
    "C32",
    "every public call with some of its options left out and the same call with them spelled out at their documented values, verbosity on or off, one trajectory or a list of one, equivalent names of a method and forms of an argument: the results are the same. Non-trivial: the option exists for the model drawn.",
    [SubCheck("bases", bases_cases, check_bases, 240), SubCheck("tools", tools_cases, check_tools, 240), SubCheck("estimator", estimator_cases, check_estimator, 240), SubCheck("model", model_cases, check_model, 300)],
    assumptions=["documented value: that of the documentation, or of the signature where it is not described"],
)
