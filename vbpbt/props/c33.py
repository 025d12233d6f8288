"""C33: the numbers decide, not how they are stored (type of the numbers, order and strides of the memory, read-only)."""
import contextlib

import numpy as np
import skfem
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf
import VolterraBasis.gle_integrate as gi

from .. import gen, ref
from ..core import Property, SubCheck, as_np, rng_of
from . import c06
from .c32 import same

INTS = ["int64", "int32"]
HOWS = INTS + INTS + ["fortran", "strided", "reversed", "readonly", "column", "bigendian"]


def keep(a):
    """Contiguous double precision numbers."""
    return np.array(a, dtype=np.float64, order="C")


def stored(a, how):
    """The same numbers, stored otherwise (no view shares memory with a)."""
    a = keep(a)
    if how in INTS:
        b = a.astype(how)
        assert np.array_equal(b, a)
        return b
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full((2 * a.shape[0],) + a.shape[1:], np.nan)
        b[::2] = a
        return b[::2]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        a.flags.writeable = False
        return a
    if how == "column":  # some columns of a wider table
        b = np.full(a.shape[:-1] + (a.shape[-1] + 2,), np.nan)
        b[..., 1:-1] = a
        return b[..., 1:-1]
    if how == "bigendian":
        return a.astype(">f8")
    raise ValueError(how)


def numbers(rng, how, size, lo=-4, hi=4):
    """Random numbers, integers if they are to be stored as such."""
    if how in INTS:
        return rng.integers(lo, hi + 1, size=size).astype(float)
    return rng.uniform(lo, hi, size=size)


def compare(f, how, what, rtol=1e-10):
    """f(store) -> results; the same whatever the storage."""
    a = f(keep)
    b = f(lambda z: stored(z, how))
    same(b, a, "%s from %s numbers" % (what, how), rtol)


# ------------------------------------------------------------------ bases
def check_bases(case):
    rng = rng_of(case["seed"], 331)
    how, spec, dim = case["how"], case["basis"], case["dim"]
    D, X = numbers(rng, how, (case["n"], dim)), numbers(rng, how, (case["m"], dim), -3, 3)
    D[0], D[1] = -4, 4
    what = case["what"]

    def f(store):
        b = gen.build(spec)
        b.fit(store(D))
        x = store(X)
        res = [b.n_output_features_]
        if what == "values":
            res += [b.basis(x)]
        elif what == "deriv":
            with contextlib.suppress(NotImplementedError, ValueError):  # no such derivative of these functions
                res += [b.deriv(x)]
        elif what == "hessian":
            with contextlib.suppress(NotImplementedError, ValueError):  # no such derivative of these functions
                res += [b.hessian(x)]
        else:
            with contextlib.suppress(NotImplementedError, ValueError):  # no such derivative of these functions
                res += [b.antiderivative(x)]
        return res

    compare(f, how, "%s %s" % (spec["kind"], what))
    return {"nontrivial": True, "labels": [spec["kind"], what, how]}


@st.composite
def bases_cases(draw):
    dim = draw(st.sampled_from([1, 1, 2, 3]))
    if dim == 1:
        s = draw(gen.basis_1d_spec())
    else:
        s = draw(gen.basis_nd_spec(max_deg=4))
    k = draw(st.integers(0, 5))
    if k == 0:
        s = {"kind": "combine", "parts": [s, draw(gen.linear_spec())]}
    elif k == 1 and dim == 2:
        one = gen.poly_spec(max_deg=3, rc=False, fams=gen.POLY_OK)
        s = {"kind": "tensor", "b1": draw(one), "b2": draw(st.one_of(one, gen.fourier_spec(max_order=2, rc=False)))}
    what = draw(st.sampled_from(["values", "deriv", "hessian", "anti"]))
    if what == "anti" and s["kind"] in ("combine", "tensor", "indicator"):
        what = "deriv"
    return {"dim": dim, "basis": s, "n": draw(st.integers(20, 60)), "m": draw(st.integers(1, 25)), "seed": draw(gen.seeds), "how": draw(st.sampled_from(HOWS)), "what": what}


def check_fem(case):
    rng = rng_of(case["seed"], 335)
    how, d = case["how"], case["dim"]
    ends = [np.concatenate(([0], np.cumsum(rng.integers(2, 9, size=k)))).astype(float) for k in case["grid"][:d]]
    m = skfem.MeshLine(ends[0]) if d == 1 else skfem.MeshTri.init_tensor(*ends)
    fb = skfem.CellBasis(m, c06.ELEMS[d, case["deg"]]())
    X = np.stack([numbers(rng, how, case["n"], 1, int(e[-1]) - 1) for e in ends], axis=1)

    def f(store):
        b = bf.FEMScalarFeatures(fb).fit(store(X))
        x = store(X)
        B, D = b.basis(x), b.deriv(x)
        return [b.n_output_features_] + [z.todense() if hasattr(z, "todense") else z for z in (B, D)]

    compare(f, how, "finite elements")
    return {"nontrivial": True, "labels": ["fem", how, "dim%d" % d]}


def fem_cases():
    return st.fixed_dictionaries({"dim": st.integers(1, 2), "deg": st.integers(1, 2), "grid": st.lists(st.integers(1, 6), min_size=2, max_size=2), "n": st.integers(1, 20), "how": st.sampled_from(HOWS), "seed": gen.seeds})


# ------------------------------------------------------------------ trajectories, correlations and tools
def check_tools(case):
    rng = rng_of(case["seed"], 332)
    how, what, n, dim = case["how"], case["what"], case["n"], case["dim"]
    isint = how in INTS
    # integer times have steps of an integer
    dt = {True: 2.0, False: 0.125}[isint]
    x, v, a = numbers(rng, how, (n, dim), -40, 40), numbers(rng, how, (n, dim)), numbers(rng, how, (n, dim))
    t = (np.arange(n) + case["k"]) * dt
    rtol = 1e-10
    if what == "xframe":
        if dim == 1 and case["k"] % 2:
            x = x[:, 0]

        def f(store):
            return [vb.xframe(store(x), store(t)), vb.xframe(store(x), store(t), fix_time=True)] + ([vb.xframe(store(x), store(t), v=store(v), a=store(a))] if x.ndim == 2 else [])

    elif what == "va":

        def f(store):
            d = vb.xframe(store(x), store(t))
            return [vb.compute_va(d), vb.compute_va(d, correct_jumps=True, jump=30.0, jump_thr=25.0), vb.compute_va(d, lamb_finite_diff=0.25)]

    elif what == "gjf":

        def f(store):
            d = vb.xframe(store(x), store(t))
            return [vb.compute_va_gjf(d), vb.compute_va_gjf(d, correct_jumps=True, jump=30.0, jump_thr=25.0)]

    elif what == "a":

        def f(store):
            d = vb.xframe(store(x), store(t), v=store(v))
            return [vb.compute_a(d), vb.concat_underdamped(vb.compute_a(d))]

    elif what == "concat":

        def f(store):
            return vb.concat_underdamped(vb.xframe(store(x), store(t), v=store(v), a=store(a)))

    elif what == "fe":
        y = numbers(rng, how, (400, 1), -8, 8)

        def f(store):
            s = np.arange(400) * 0.5
            d = vb.xframe(store(y), s, v=store(np.roll(y, 3, axis=0)), a=store(-y))
            return [vb.compute_1d_fe([d], bins=6), vb.compute_1d_fe([d], bins=9, hist=True)]

    elif what == "corr":
        A, B = numbers(rng, how, (dim, 1, n), -9, 9), numbers(rng, how, (1 + case["k"] % 3, n), -9, 9)
        tr = 1 + case["k"] * n // 8

        def f(store):
            p, q = store(A), store(B)
            return [vb.correlation_fft(p, q, tr), vb.correlation_direct(p, q, tr), vb.correlation_fft(q), vb.correlation_direct(q)]

    elif what == "corr1":
        from VolterraBasis import correlation as co

        A, B = numbers(rng, how, n, -9, 9), numbers(rng, how, n, -9, 9)
        tr = 1 + case["k"] * n // 8

        def f(store):
            p, q = store(A), store(B)
            return [co.correlation_1D(p, q, tr), co.correlation_direct_1D(p, q, tr), co.correlation_1D(p), co.correlation_direct_1D(p)]

    elif what == "prony":
        # integers that are no sum of few exponentials, fitted all the same
        T = np.arange(20) * (1.0 if isint else 0.1)
        data = numbers(rng, how, 20, -2, 2) + np.round(40 * np.exp(-0.3 * np.arange(20)))
        rtol = 1e-7

        def f(store):
            y, A = vb.prony_fit_times_serie(store(data), T[1], N_keep=2 + case["k"] % 2)
            res = [vb.prony_series_eval(store(np.round(np.arange(5.0))), y, A)]
            res.append(vb.prony_series_kernel_eval(store(np.arange(5.0)), vb.prony_fit_kernel(store(T) if isint else T, store(data.reshape(-1, 1, 1)), N_keep=2)))
            res.append(vb.prony_inspect_data(store(data), N_keep=3)[-1])
            return res

    elif what == "fit":
        T = np.arange(12.0)
        data = np.round(100 * np.exp(-0.2 * T)) + numbers(rng, how, 12, -2, 2)
        rtol = 1e-5

        def f(store):
            p = vb.memory_fit(store(T), store(data))
            q = vb.memory_fit_kernel(store(T), store(data.reshape(-1, 1, 1)))
            return [vb.memory_fit_eval(store(T), p), vb.memory_kernel_eval(store(T), q)]

    elif what == "noise":
        m = numbers(rng, how, (6, 6))
        m = m @ m.T + 4 * np.eye(6)
        ker = np.array([40.0, 10.0, 5.0, 2.0, 1.0])
        T = np.arange(5.0)

        def f(store):
            def draw():
                return np.random.default_rng(case["seed"]).normal

            cls = vb.KarhunenLoeveNoiseGenerator
            res = [cls(store(m), 1.0, rng=draw()).generate(), cls.generate_stationary_covariancematrix(store(ker))]
            res.append(cls.generate_stationary_covariancematrix(store(ker), backward_kernel=store(ker[:0:-1])))
            res.append(gi.ColoredNoiseGenerator(store(ker.reshape(-1, 1, 1)), store(T), rng=draw()).generate(30))
            return res

    elif what == "mesh":
        y = numbers(rng, how, (60, 1), -30, 30)
        z = numbers(rng, how, (60, 2), -30, 30)

        def f(store):
            return [bf.data_driven_line(store(y), bins=5), bf.centroid_driven_line(store(y), bins=4), bf.centroid_driven_mesh(store(z), bins=4)]

        rtol = 1e-6
    compare(f, how, what, rtol)
    return {"nontrivial": True, "labels": [what, how]}


TOOLS = ["xframe", "va", "gjf", "a", "concat", "fe", "corr", "corr1", "prony", "fit", "noise", "mesh"]


def tools_cases():
    return st.fixed_dictionaries({"what": st.sampled_from(TOOLS), "how": st.sampled_from(HOWS), "n": st.integers(8, 60), "dim": st.integers(1, 3), "k": st.integers(0, 7), "seed": gen.seeds})


# ------------------------------------------------------------------ estimator and model
CORRS = ["bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw"]


def datasets(r, store, isint):
    res = []
    for i, (x, v, a) in enumerate(r.arrays):
        t = np.arange(len(x)) * r.dt
        d = vb.xframe(store(x), store(t) if isint and r.dt == 1.0 else t, v=store(v), a=store(a))
        if r.obs is not None:
            d["obs"] = (("time", "dim_o"), store(r.obs[i]))
        res.append(d)
    return res


def growth(k):
    k = as_np(k)
    return k / np.maximum.accumulate(np.abs(k).reshape(len(k), -1).max(axis=1))[:, None, None]


def check_estimator(case):
    how = case["how"]
    isint = how in INTS
    r = ref.Ref(case)
    if isint and r.obs is not None:
        r.obs = [np.round(o) for o in r.obs]
    if not r.healthy(limit=1e4):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    m = case["method"]
    vals = {}
    pts = np.arange(-2.0, 3.0)[: 5 - 5 % r.dim].reshape(-1, r.dim)
    name = case["model"]

    def f(store):
        # the storage of the trajectories only: points and coefficients are taken in turn below
        est = ref.estimator(r, ds=datasets(r, store, isint))
        est.compute_mean_force()
        res = {"force": est.model.force_coeff, "gram": est.model.gram_force, "N": est.model.N_basis_elt, "trunc": est.model.trunc_ind, "dt": est.model.dt}
        if name not in ("Pos_gle_overdamped",):
            est.compute_effective_mass()
            res["mass"] = est.model.eff_mass
        est.compute_corrs(method=["fft", "direct"][case["k"] % 2], vectorize=bool(case["k"] & 2))
        if not est.model.rank_projection:
            for k in CORRS:
                res[k] = getattr(est, k)
        est.compute_kernel(method=m)
        res["kernel"] = growth(est.model.kernel)
        d = datasets(r, store, isint)[0]
        res["noise"] = [] if m == "midpoint" else [as_np(q) for q in est.model.compute_noise(d)]
        if name != "Pos_gle_with_friction":
            res["force_eval"] = est.model.force_eval(store(pts))
        vals["est"] = est
        return res

    a = f(keep)
    est = vals["est"]
    if not np.all(np.isfinite(as_np(est.model.kernel))) or np.abs(as_np(est.model.kernel)).max() > 1e8 * np.abs(as_np(est.model.kernel)[:3]).max():
        return {"nontrivial": False, "labels": ["kernel diverges"]}
    b = f(lambda z: stored(z, how))
    for k in a:
        if k == "noise":
            continue
        same(b[k], a[k], "%s from %s numbers, %s" % (k, how, name), 1e-6 if k == "kernel" else 1e-8)
    # the noise is as precise as the kernel
    for p, q in zip(b["noise"], a["noise"]):
        same(p, q, "noise from %s numbers, %s" % (how, name), 1e-5)
    return {"nontrivial": True, "labels": [name, how, m]}


@st.composite
def estimator_cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2), min_len=60, max_len=150, max_trajs=3))
    c["traj"]["t0"] = 0
    c["trunc"] = draw(st.integers(5, 12))
    c["how"] = draw(st.sampled_from(HOWS))
    if c["how"] in INTS:
        c["traj"]["int"] = True
        c["traj"]["dt"] = draw(st.sampled_from([1.0, 1.0, 0.1, 0.5]))
    c["method"] = draw(st.sampled_from(["rect", "midpoint", "trapz", "second_kind_rect", "second_kind_trapz"]))
    c["k"] = draw(st.integers(0, 3))
    return c


def check_model(case):
    """Results of a model that has its coefficients: the arguments stored in one way or another."""
    how, what = case["how"], case["what"]
    rng = rng_of(case["seed"], 334)
    dim, obs = case["dim"], case["dim"]
    Model = {"evolve": vb.Pos_gle_overdamped}.get(what, vb.Pos_gle if case["k"] % 2 else vb.Pos_gle_no_vel_basis)
    m = Model(bf.LinearFeatures() if case["k"] % 3 else bf.PolynomialFeatures(deg=2), 0.5, dim_x=dim)
    K = m.N_basis_elt_kernel
    N = m.N_basis_elt_force
    if what == "evolve":
        obs = N
    T = case["n"]
    ker = numbers(rng, how, (T, K, obs), -2, 2)
    fc = numbers(rng, how, (N, obs))
    x = numbers(rng, how, (5, dim), -3, 3)
    cor = numbers(rng, how, (K, K, T), -3, 3)

    def f(store):
        m.dim_obs = obs
        m.rank_projection = False
        m.force_coeff = xr.DataArray(store(fc), dims=("dim_basis", "dim_x"))
        m.kernel = xr.DataArray(store(ker), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(T) * 0.5})
        m.trunc_ind = T
        if what == "force":
            return [m.force_eval(store(x)), m.force_eval(store(x), coeffs=m.force_coeff)]
        if what == "kernel":
            return [m.kernel_eval(store(x)), m.laplace_transform_kernel(n_points=4)]
        if what == "flux":
            return [m.flux_from_volterra(store(cor), force_coeff=store(numbers(rng_of(case["seed"]), how, (K, obs))), method=q) for q in ("trapz", "rect")]
        if what == "noise":
            d = vb.xframe(store(numbers(rng_of(case["seed"], 1), how, (T + 9, dim))), np.arange(T + 9) * 0.5, v=store(numbers(rng_of(case["seed"], 2), how, (T + 9, dim))), a=store(numbers(rng_of(case["seed"], 3), how, (T + 9, dim))))
            return [m.compute_noise(d), m.compute_corrs_w_noise(d)]
        if what == "evolve":
            return [m.evolve_volterra(store(numbers(rng_of(case["seed"], 4), how, (K, K))), 9, method=q) for q in ("trapz", "rect", "trapz_stab")]

    if what == "integrator":
        x1, v1 = numbers(rng, how, (4, dim), -3, 3), numbers(rng, how, (4, dim), -3, 3)
        k1 = np.zeros((6, dim, dim))
        for d in range(dim):
            k1[:, d, d] = [6, 3, 2, 1, 1, 1]
        Cls = [vb.Integrator_gle, gi.Integrator_gle_const_kernel][case["k"] % 2]

        def f(store):
            b = bf.LinearFeatures().fit(np.array([[-1.0] * dim, [1.0] * dim]))
            it = Cls(None, verbose=False, basis=b, force_coeff=store(fc[:dim]), kernel=store(k1), dt=0.03, rng=np.random.default_rng(case["seed"]).normal)
            x0 = xr.Dataset({"x": (("time", "dim_x"), store(x1)), "v": (("time", "dim_x"), store(v1))}, coords={"time": np.arange(4) * 0.03})
            return [it.run(12, x0=x0), it.run(12, x0=x0, set_noise_to_zero=True)]

    compare(f, how, "%s of a model" % what, 1e-9)
    return {"nontrivial": True, "labels": [what, how, Model.__name__]}


MODEL = ["force", "kernel", "flux", "noise", "evolve", "integrator"]


def model_cases():
    return st.fixed_dictionaries({"what": st.sampled_from(MODEL), "how": st.sampled_from(HOWS), "n": st.integers(3, 14), "dim": st.integers(1, 2), "k": st.integers(0, 5), "seed": gen.seeds})


PROPERTY = Property(
    "C33",
    "the same numbers as contiguous double precision arrays and as integers, Fortran-ordered, strided, reversed or read-only views, columns of a wider table, or of the other byte order. Non-trivial: the estimation is well conditioned.",
    [SubCheck("bases", bases_cases, check_bases, 200), SubCheck("fem", fem_cases, check_fem, 100), SubCheck("tools", tools_cases, check_tools, 200), SubCheck("estimator", estimator_cases, check_estimator, 150), SubCheck("model", model_cases, check_model, 150)],
)
