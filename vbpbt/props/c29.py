"""C29: what cannot be computed is refused, and a refusal leaves everything as it was."""
import warnings

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen, ref
from ..core import Property, SubCheck, Violation, as_np, require, rng_of

STATE = ["force_coeff", "kernel", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff", "method", "P_range", "L_obs", "dim_obs", "rank_projection", "trunc_ind", "dt"]
CORRS = ["bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw"]


def snapshot(est):
    s = {}
    for k in STATE:
        v = getattr(est.model, k)
        s[k] = v.copy(deep=True) if isinstance(v, xr.DataArray) else v
    for k in CORRS:
        v = getattr(est, k, None)
        s["corr " + k] = v.copy(deep=True) if isinstance(v, xr.DataArray) else None
    return s


def unchanged(est, s, what):
    n = snapshot(est)
    for k in s:
        a, b = s[k], n[k]
        ok = type(a) is type(b) and (a.identical(b) if isinstance(a, xr.DataArray) else a == b)
        require(ok, "%s was refused, but %s is changed (from %s to %s)", what, k, _short(a), _short(b))


def _short(a):
    return "an array" if isinstance(a, xr.DataArray) else repr(a)


def refused(what, func, exc=Exception):
    try:
        res = func()
    except exc:
        return
    except Exception as e:
        raise Violation("%s: %s instead of %s" % (what, type(e).__name__, getattr(exc, "__name__", exc)))
    raise Violation("%s is accepted and returns %s" % (what, type(res).__name__))


# ------------------------------------------------------------------ construction
class NoDeriv:
    const_removed = False

    def fit(self, d):
        self.n_output_features_ = 1
        return self

    def basis(self, X):
        return np.ones((len(X), 1))


class NoBasis:
    const_removed = False

    def fit(self, d):
        self.n_output_features_ = 1
        return self

    def deriv(self, X):
        return np.ones((len(X), 1, X.shape[1]))


class NoFit:
    const_removed = False

    def basis(self, X):
        return np.ones((len(X), 1))

    def deriv(self, X):
        return np.zeros((len(X), 1, X.shape[1]))


def check_construction(case):
    r = ref.Ref(case)
    ds = ref.trajs(r)
    what = case["what"]
    pos = case["pos"] % len(ds)
    Model = gen.MODELS[case["model"]]
    basis = ref.new_basis(case)
    kw = {"L_obs": "obs"} if r.obs is not None else {}
    if case["single"]:
        ds, pos = [ds[pos]], 0
    d = ds[pos]
    if what == "time":
        ds[pos] = d.rename({"time": "frames"})
    elif what == "dt":
        d.attrs.pop("dt")
    elif what == "var":
        names = Model.set_of_obs
        name = names[case["pos"] % len(names)]
        ds[pos] = d.drop_vars(name)
        what = "no " + name
    elif what == "obs":
        kw["L_obs"] = "absent"
        if not case["single"] and len(ds) > 1:  # only one of them lacks it
            for i, q in enumerate(ds):
                if i != pos:
                    q["absent"] = (("time", "dim_absent"), as_np(q["v"])[:, :1].copy())
    elif what == "nobasis":
        basis = NoBasis()
    elif what == "noderiv":
        basis = NoDeriv()
    elif what == "nofit":
        basis = NoFit()
    elif what == "none":
        basis = None
    elif what == "dim":
        # one dimensional bases on two coordinates, two dimensional ones on one
        n = len(d["time"])
        if r.dim == 1:
            x = np.stack([as_np(d["x"])[:, 0]] * (1 if case["pos"] % 2 else 3), axis=1)
            basis = bf.TensorialBasis2D(bf.PolynomialFeatures(2))
        else:
            x = as_np(d["x"])
            basis = bf.SmoothIndicatorFeatures([[-0.5, 0.5]])
        ds = [vb.xframe(x, np.arange(n) * r.dt, v=x.copy(), a=x.copy())]
        kw = {}
    arg = ds[0] if case["single"] and case["pos"] % 2 and len(ds) == 1 else ds
    refused("an estimator (%s, trajectory %d of %d)" % (what, pos, len(ds)), lambda: vb.Estimator_gle(arg, Model, basis, trunc=3 * r.dt, saveall=False, verbose=False, **kw))
    return {"nontrivial": True, "labels": [what.split()[0], case["model"]]}


@st.composite
def construction_cases(draw):
    c = draw(ref.est_case(dims=(1, 2), min_len=12, max_len=30, max_trajs=3))
    c["what"] = draw(st.sampled_from(["time", "dt", "var", "var", "obs", "nobasis", "noderiv", "nofit", "none", "dim"]))
    c["pos"] = draw(st.integers(0, 5))
    c["single"] = draw(st.booleans())
    return c


# ------------------------------------------------------------------ calls out of order or with wrong arguments
OPS = [
    "corrs before force", "kernel before corrs", "unknown kernel method", "second kind without derivatives", "check before kernel", "noise before force", "noise before kernel", "corrs_w_noise before kernel",
    "force_eval before force", "pmf_eval before force", "kernel_eval before kernel", "inv_mass_eval before mass", "friction before force", "const part before kernel", "laplace before kernel", "noise midpoint", "corrs_w_noise midpoint",
    "kernel_eval shape", "inv_mass_eval shape", "pmf_eval shape", "force_eval shape", "evolve", "unknown goal", "short corrs", "flux method", "evolve method", "projected before kernel", "k0 shape", "constant basis", "gram before projection",
]


def check_order(case):
    r = ref.Ref(case)
    if not r.healthy():
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    ds = ref.trajs(r)
    est = ref.estimator(r, ds=ds)
    m = est.model
    rng = rng_of(case["traj"]["seed"], 8)
    what = case["what"]
    pts = np.linspace(-0.5, 0.5, 3 * r.dim).reshape(-1, r.dim)
    vel_fr = case["model"] == "Pos_gle_with_friction"
    skip = {"nontrivial": False, "labels": ["does not apply"]}
    good = case["method"]

    def chain(kernel=True, **kw):
        est.compute_mean_force()
        est.compute_corrs(**kw)
        if kernel:
            est.compute_kernel(method=good)

    exc = Exception
    if what == "corrs before force":
        func = est.compute_corrs
    elif what == "kernel before corrs":
        if case["some"]:
            est.compute_mean_force()
        func = lambda: est.compute_kernel(method=good)
    elif what == "unknown kernel method":
        chain(kernel=case["some"])
        name = case["name"]
        func = lambda: est.compute_kernel(method=name)
    elif what == "second kind without derivatives":
        est.compute_mean_force()
        est.compute_corrs(second_order_method=False)
        if case["some"]:
            est.compute_kernel(method="rect")
        func = lambda: est.compute_kernel(method="second_kind_rect" if case["alt"] else "second_kind_trapz")
    elif what == "check before kernel":
        chain(kernel=False)
        func = est.check_volterra_inversion
    elif what == "noise before force":
        func = lambda: m.compute_noise(ds[0])
    elif what == "noise before kernel":
        chain(kernel=False)
        func = lambda: m.compute_noise(ds[0])
    elif what == "corrs_w_noise before kernel":
        if case["some"]:
            chain(kernel=False)
        func = lambda: m.compute_corrs_w_noise(ds[0])
    elif what == "projected before kernel":
        if case["some"]:
            chain(kernel=False)
        func = est.compute_projected_corrs
    elif what == "force_eval before force":
        func = lambda: m.force_eval(pts)
    elif what == "pmf_eval before force":
        func = lambda: m.pmf_eval(pts)
    elif what == "kernel_eval before kernel":
        if case["some"]:
            chain(kernel=False)
        func = lambda: m.kernel_eval(pts)
    elif what == "inv_mass_eval before mass":
        if case["some"]:
            est.compute_mean_force()
            est.compute_effective_mass()
        func = lambda: m.inv_mass_eval(pts)
    elif what == "friction before force":
        if not vel_fr:
            return skip
        func = lambda: m.friction_force_eval(pts)
    elif what == "const part before kernel":
        if case["model"] != "Pos_gle_hybrid":
            return skip
        func = lambda: m.get_const_kernel_part()
    elif what == "laplace before kernel":
        if case["some"]:
            chain(kernel=False)
        func = lambda: m.laplace_transform_kernel()
    elif what in ("noise midpoint", "corrs_w_noise midpoint"):
        chain(kernel=False)
        est.compute_kernel(method="midpoint" if case["alt"] else "midpoint_w_richardson")
        exc = ValueError
        func = (lambda: m.compute_noise(ds[0])) if what == "noise midpoint" else (lambda: m.compute_corrs_w_noise(ds[0]))
    elif what == "kernel_eval shape":
        if case["model"] == "Pos_gle_hybrid":
            return skip
        chain()
        K, D = m.kernel.shape[1:]
        shape = [(len(m.kernel), K + 1, D), (len(m.kernel), K, D + 1), (3, K + 2, D + 1)][case["n"] % 3]
        func = lambda: m.kernel_eval(pts, coeffs_ker=rng.normal(size=shape))
    elif what == "inv_mass_eval shape":
        N, d = m.N_basis_elt_force, r.dim
        shape = [(N + 1, d, d), (N, d + 1, d), (N, d, d + 1), (N,)][case["n"] % 4]
        func = lambda: m.inv_mass_eval(pts, coeffs=xr.DataArray(rng.normal(size=shape), dims=("dim_basis", "dim_x", "dim_x'")[: len(shape)]))
    elif what == "pmf_eval shape":
        if case["model"] != "Pos_gle_overdamped":
            return skip
        N, d = m.N_basis_elt_force, m.dim_obs
        shape = [(N + 1, d), (N, d + 1), (N,)][case["n"] % 3]
        func = lambda: m.pmf_eval(pts, coeffs=rng.normal(size=shape))
    elif what == "force_eval shape":
        if vel_fr:
            return skip
        N, d = m.N_basis_elt_force, m.dim_obs
        shape = (N, d + 1)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                m.force_eval(pts, coeffs=rng.normal(size=shape))
            except Exception:
                w = [1]
        require(len(w) > 0, "coefficients of shape %s for a force of shape %s are accepted without a warning", shape, (N, d))
        return {"nontrivial": True, "labels": [what]}
    elif what == "evolve":
        chain()
        K = m.kernel.shape[1]
        n = 5
        if case["model"] != "Pos_gle_overdamped":
            exc = NotImplementedError
            func = lambda: m.evolve_volterra(np.eye(K), n)
        else:
            exc = ValueError
            bad, K = case["n"] % 5, 1 + case["n"] % 4
            f, ker, g = [K, K], [6, K, K], [K, K]
            if bad == 0:
                f[1] += 1 + case["alt"]
            elif bad == 1:
                ker[2] += 1 + case["alt"]
                g[0] = ker[2]
            elif bad == 2:
                f[0] += 1
            elif bad == 3:
                g[0] += 1 + case["alt"]
            else:
                f, ker, g = [K + 1] * 2, [6, K + 1, K + 1], [K, K + 1]
            m.force_coeff = xr.DataArray(rng.normal(size=f), dims=("dim_basis", "dim_x"))
            m.kernel = xr.DataArray(rng.normal(size=ker), dims=("time_kernel", "dim_basis", "dim_x"))
            func = lambda: m.evolve_volterra(rng.normal(size=g), n)
    elif what == "evolve method":
        if case["model"] != "Pos_gle_overdamped":
            return skip
        chain()
        K = m.kernel.shape[1]
        if m.kernel.shape[2] != K:
            return skip
        func = lambda: m.evolve_volterra(np.eye(K), 5, method=case["name"])
    elif what == "flux method":
        chain()
        K = m.kernel.shape[1]
        C = rng.normal(size=(K, K, 6))
        f = rng.normal(size=(K, 1))
        exc = ValueError
        func = lambda: m.flux_from_volterra(C, force_coeff=f, method=["trapz_stab", "euler", "midpoint", ""][case["n"] % 4])
    elif what == "unknown goal":
        goal = ["forces", "memory", "", "Force", "noise"][case["n"] % 5]
        exc = ValueError
        func = lambda: m.basis_vector(ds[0], compute_for=goal)
    elif what == "short corrs":
        meth, n = [("rect", 1), ("midpoint", 1), ("midpoint_w_richardson", 3), ("rectangular", 1), ("midpoint_w_richardson", 1)][case["n"] % 5]
        est = ref.estimator(r, ds=ds, trunc=(n - 0.5) * r.dt)
        m = est.model
        chain(kernel=False)
        func = lambda: est.compute_kernel(method=meth)
    elif what == "constant basis":  # nothing the memory could depend on
        Model = [vb.Pos_gle, vb.Pos_gle_with_friction][case["n"] % 2]
        basis = [bf.PolynomialFeatures(deg=0, remove_const=False), bf.FourierFeatures(order=0, freq=1.0, remove_const=False)][case["alt"]]
        est = vb.Estimator_gle(ds, Model, basis, trunc=5 * r.dt, saveall=False, verbose=False)
        m = est.model
        est.set_zero_force()
        func = est.compute_corrs
    elif what == "gram before projection":
        if not m.rank_projection:
            return skip
        if case["some"]:
            est.compute_mean_force()
        func = est.compute_gram_kernel
    elif what == "k0 shape":
        chain(kernel=case["some"])
        K, D = est.bkdxcorrw.shape[0], est.bkdxcorrw.shape[1]
        shape = [(K + 1, D), (K, D + 1), (K + 1, D + 1)][case["n"] % 3]
        func = lambda: est.compute_kernel(method=["trapz", "second_kind_rect", "second_kind_trapz"][case["n"] % 3], k0=rng.normal(size=shape))
    before = snapshot(est)
    refused(what, func, exc)
    unchanged(est, before, what)
    if what in ("unknown kernel method", "second kind without derivatives", "k0 shape") and m.kernel is not None and m.method is not None and not m.method.startswith("midpoint"):
        m.compute_noise(ds[0])  # the kernel which is still there can be used
    return {"nontrivial": True, "labels": [what, case["model"]]}


@st.composite
def order_cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2), min_len=30, max_len=60, max_trajs=2))
    c["trunc"] = draw(st.integers(6, 10))
    c["what"] = draw(st.sampled_from(OPS))
    c["some"] = draw(st.booleans())
    c["alt"] = draw(st.booleans())
    c["n"] = draw(st.integers(0, 59))
    c["method"] = draw(st.sampled_from(["rect", "trapz", "second_kind_rect", "second_kind_trapz"]))
    c["name"] = draw(st.sampled_from(["simpson", "second_kind", "Rect", "", "trapezoidal", "first_kind_rect"]))
    if c["what"] in ("pmf_eval shape", "evolve method") or c["what"] == "evolve" and c["n"] % 6:
        c["model"] = "Pos_gle_overdamped"
    elif c["what"] == "friction before force":
        c["model"] = "Pos_gle_with_friction"
        c["dim"], c["traj"]["dim"] = 1, 1
        c["basis"] = draw(gen.poly_spec(max_deg=3, rc=True, fams=gen.POLY_OK))
    elif c["what"] == "gram before projection":
        c["model"] = draw(st.sampled_from(["Pos_gle", "Pos_gle_no_vel_basis", "Pos_gle_with_friction"]))
        c["basis"] = draw(gen.poly_spec(max_deg=3, rc=False, fams=gen.POLY_OK))
    elif c["what"] == "const part before kernel":
        c["model"] = "Pos_gle_hybrid"
        c["dim"], c["traj"]["dim"] = 1, 1
        c["basis"] = draw(gen.poly_spec(max_deg=3, rc=False, fams=gen.POLY_OK))
    return c


# ------------------------------------------------------------------ bases and tools
def check_tools(case):
    rng = rng_of(case["seed"], 9)
    what = case["what"]
    n = case["n"]
    X = rng.uniform(-1, 1, size=(8, 1))
    X2 = rng.uniform(-1, 1, size=(8, 2))
    exc = Exception
    if what == "boundary type":
        name = ["Tricube", "linear", "", "cubic", 3, None][n % 6]
        exc = ValueError
        func = lambda: bf.SmoothIndicatorFeatures([[-0.5, 0.5]], name)
    elif what == "indicator dim":
        exc = ValueError
        func = lambda: bf.SmoothIndicatorFeatures([[-0.5, 0.5]]).fit(rng.uniform(size=(6, 2 + n % 3)))
    elif what == "tensor dim":
        exc = ValueError
        func = lambda: bf.TensorialBasis2D(bf.PolynomialFeatures(2)).fit(rng.uniform(size=(6, [1, 3, 4][n % 3])))
    elif what == "combined primitive":
        b = bf.FeaturesCombiner(bf.LinearFeatures(), bf.FourierFeatures(order=1, freq=1.0)).fit(X)
        exc = NotImplementedError
        func = lambda: b.antiderivative(X)
    elif what == "tensor primitive":
        b = bf.TensorialBasis2D(bf.PolynomialFeatures(2)).fit(X2)
        exc = NotImplementedError
        func = lambda: b.antiderivative(X2)
    elif what == "tensor third":
        b = bf.TensorialBasis2D(bf.PolynomialFeatures(4)).fit(X2)
        exc = NotImplementedError
        func = lambda: b.deriv(X2, deriv_order=3 + n % 2)
    elif what == "indicator primitive":
        b = bf.SmoothIndicatorFeatures([[-0.5, 0.5]]).fit(X)
        exc = NotImplementedError
        func = lambda: b.antiderivative(X)
    elif what == "bins":
        t = np.arange(30) * 0.1
        ds = vb.xframe(rng.normal(size=(30, 1)), t, v=rng.normal(size=(30, 1)), a=rng.normal(size=(30, 1)))
        bad = [4.5, None, [0.0, 1.0, 2.0], (3, 4)][n % 4]
        exc = ValueError
        func = lambda: vb.compute_1d_fe([ds], bins=bad)
    elif what == "fit type":
        t = np.arange(20) * 0.1
        exc = ValueError
        func = lambda: vb.memory_fit(t, np.exp(-t), type=["Exp", "lorentz", "", "power"][n % 4])
    elif what == "fit eval type":
        exc = ValueError
        func = lambda: vb.memory_fit_eval(np.arange(5) * 0.1, ("lorentz", [1.0, 2.0]) if n % 2 else [1.0, 2.0], **({} if n % 2 else {"type": "power"}))
    elif what == "fit shape":
        t = np.arange(20) * 0.1
        exc = ValueError
        data = np.exp(-t)
        func = lambda: vb.memory_fit(t, np.stack([data, data], axis=1)) if n % 2 else vb.memory_fit(np.stack([t, t], axis=1), data)
    elif what == "noise length":
        k = rng.normal(size=(6, 6))
        g = vb.KarhunenLoeveNoiseGenerator(k @ k.T, 0.1)
        exc = ValueError
        func = lambda: g.generate(7 + n % 4)
    elif what == "vector element":
        import skfem

        mesh = skfem.MeshTri().refined(1)
        el = [skfem.ElementTriRT0(), skfem.ElementTriN1()][n % 2]
        b = bf.ScalarFemFeatures(skfem.CellBasis(mesh, el)) if hasattr(bf, "ScalarFemFeatures") else bf.FEMScalarFeatures(skfem.CellBasis(mesh, el))
        exc = NotImplementedError
        P = rng.uniform(0.1, 0.9, size=(6, 2))
        func = (lambda: b.fit(P).basis(P)) if n % 4 < 2 else (lambda: b.fit(P).deriv(P))
    elif what == "prony filter":  # nothing of the data passes the filter
        t = np.arange(21 + n % 7) * 0.1
        y = np.exp(-t) * (1.0 + n % 3)
        exc = ValueError
        func = (lambda: vb.prony_fit_times_serie(y, 0.1, N_keep=0)) if n % 2 else (lambda: vb.prony_fit_times_serie(y, 0.1, thres=1e3))
    elif what == "second primitive":
        b = bf.FourierFeatures(order=2 + n % 4, freq=1.0, remove_const=bool(n % 2)).fit(X)
        exc = NotImplementedError
        func = lambda: b.antiderivative(X, order=2)
    refused(what, func, exc)
    return {"nontrivial": True, "labels": [what]}


TOOLS = ["vector element", "prony filter", "second primitive", "boundary type", "indicator dim", "tensor dim", "combined primitive", "tensor primitive", "tensor third", "indicator primitive", "bins", "fit type", "fit eval type", "fit shape", "noise length"]


def tools_cases():
    return st.fixed_dictionaries({"what": st.sampled_from(TOOLS), "n": st.integers(0, 59), "seed": gen.seeds})


PROPERTY = Property(
    "C29",
    "random model, basis and trajectories, with one thing that cannot work: trajectories without time, time step, a needed variable or the observable (one of several, or the only one), objects that are not bases or of another dimension; every call before what it needs, with unknown methods and goals, with coefficients or initial values of other shapes, with kernels it cannot use, with too few frames; unsupported operations of bases and tools. An exception (of the announced kind where the code announces one) is required, and what was stored before the refused call must still be there, unchanged and usable. Non-trivial: the refusal applies to the model drawn.",
    [SubCheck("construction", construction_cases, check_construction, 600), SubCheck("order", order_cases, check_order, 1600), SubCheck("tools", tools_cases, check_tools, 500)],
    assumptions=["the class of the exception is only required where the code raises a specific one; the text is not"],
)
