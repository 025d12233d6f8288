"""C18: the free energy is the integral of the mean force."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, SubCheck, as_np, close, require, rng_of

GX, GW = np.polynomial.legendre.leggauss(24)


def integrate(fun, a, b, breaks):
    """integral of fun from a to b, exact between the break points up to rounding"""
    lo, hi = min(a, b), max(a, b)
    cut = np.concatenate(([lo], breaks[(breaks > lo) & (breaks < hi)], [hi]))
    tot = 0.0
    for p, q in zip(cut[:-1], cut[1:]):
        x = 0.5 * (q - p) * GX + 0.5 * (p + q)
        tot = tot + 0.5 * (q - p) * GW @ fun(x)
    return tot if b >= a else -tot


def check(case):
    r = ref.Ref(case)
    f = r.force()
    if not np.isfinite(r.cond) or r.cond > 1e8:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    est = ref.estimator(r)
    m = est.compute_mean_force()
    mass = np.eye(1)
    if case["mass"]:
        est.compute_effective_mass()
        mass = as_np(m.eff_mass)
    rng = rng_of(case["traj"]["seed"], 18)
    lo, hi = r.xs.min(), r.xs.max()
    x = np.sort(rng.uniform(lo, hi, size=case["npts"]))
    breaks = gen.breakpoints(case["basis"], lo, hi)
    kw = {"kT": case["kT"]} if case["kT"] != 1.0 else {}
    NB = r.N
    coeffs = as_np(m.force_coeff)[:NB]
    if case["user"]:
        coeffs = rng.normal(size=coeffs.shape)
        kw["coeffs"] = coeffs.copy()
    factor = 1.0 / case["kT"] if case["model"] == "Pos_gle_overdamped" else mass[0, 0] / case["kT"]
    pmf = as_np(m.pmf_eval(x.copy(), **kw))
    raw = as_np(m.pmf_eval(x.copy(), set_zero=False, **kw))
    require(pmf.shape == (len(x), 1), "shape of the free energy: %s", pmf.shape)

    def force(y):
        return (r.basis.basis(y[:, None]) @ coeffs)[:, 0]

    acc = [0.0]
    for p, q in zip(x[:-1], x[1:]):
        acc.append(acc[-1] - factor * integrate(force, p, q, breaks))
    acc = np.array(acc)
    sc = np.abs(acc).max() + factor * np.abs(coeffs).max() * max(np.abs(r.basis.basis(x[:, None])).max(), 1.0) * max(hi - lo, np.abs(x).max()) + 1e-300
    close(pmf[:, 0] - pmf[0, 0], acc - acc[0], "free energy differences", rtol=1e-8, scale=sc)
    close(np.array(pmf.min()), np.array(0.0), "minimum of the free energy", rtol=1e-10, scale=sc)
    close(raw - raw.min(), pmf, "free energy without setting its minimum to zero", rtol=1e-10, scale=sc)
    if not case["user"] and case["model"] != "Pos_gle_with_friction":
        # what is integrated is the force of the model
        h = 1e-5 * (hi - lo)
        mid = x[(np.abs(x[:, None] - breaks[None]).min(axis=1) > 5 * h) if len(breaks) else slice(None)]
        mid = mid[(mid > lo + 2 * h) & (mid < hi - 2 * h)]
        if len(mid):
            up = as_np(m.pmf_eval(mid + h, set_zero=False, **kw))
            dn = as_np(m.pmf_eval(mid - h, set_zero=False, **kw))
            close((up - dn) / (2 * h), -factor * as_np(m.force_eval(mid)), "slope of the free energy", rtol=1e-4, scale=sc / (hi - lo) * 10)
    return {"nontrivial": len(x) > 2, "labels": [case["model"], case["basis"]["kind"], "mass" if case["mass"] else "nomass", "user" if case["user"] else "own"]}


def check_num(case):
    """position dependent mass, numerical integration (kT = 1)"""
    r = ref.Ref(case)
    r.force()
    KA = np.concatenate([r.kernel_basis(a[0]) for a in r.arrays])
    G = np.einsum("nkd,nld->kl", KA, KA) / r.tot
    if not np.isfinite(r.cond) or r.cond > 1e7 or np.linalg.cond(G) > 1e6:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    est = ref.estimator(r)
    m = est.compute_mean_force()
    est.compute_pos_effective_mass()
    lo, hi = np.quantile(r.xs, [0.15, 0.85])
    res = []
    for n in (400, 800):
        x = np.linspace(lo, hi, n)[:: case["way"]]
        F = as_np(m.force_eval(x))[:, 0]
        im = as_np(m.inv_mass_eval(x))[:, 0, 0]
        if np.abs(im).min() < 0.3 * np.abs(im).max():
            return {"nontrivial": False, "labels": ["vanishing mass"]}
        got = as_np(m.pmf_num_int_eval(x, set_zero=False))
        z = as_np(m.pmf_num_int_eval(x))
        require(got.shape == (n,), "shape of the free energy %s", got.shape)
        close(z, got - got.min(), "minimum set to zero", rtol=1e-9, scale=np.abs(got).max() + 1e-300)
        dm = np.gradient(im, x, edge_order=2)
        g = -(F - dm) / im
        want = np.concatenate(([0.0], np.cumsum(0.5 * (g[1:] + g[:-1]) * np.diff(x))))
        # a rule of first order at least: the error is bounded by a few steps times the slopes
        dx = x[1] - x[0]
        dx = abs(dx)
        tol = 6 * dx * np.abs(g).max() + 20 * dx * np.abs(np.gradient(dm, x)).max() / np.abs(im).min() * (1 + 0)
        close(got - got[0], want, "free energy with position dependent mass", rtol=0, atol=tol)
    return {"nontrivial": True, "labels": [case["model"], case["basis"]["kind"]]}


@st.composite
def cases(draw):
    c = draw(ref.est_case(dims=(1,), max_trajs=2, min_len=40, max_len=120, obs=False, antider=True))
    c["mass"] = draw(st.booleans())
    c["kT"] = draw(st.sampled_from([1.0, 1.0, 0.5, 2.494]))
    c["npts"] = draw(st.one_of(*[st.integers(1, 9)] * 20, st.integers(700, 1500)))
    c["user"] = draw(st.sampled_from([False, False, True]))
    return c


@st.composite
def num_cases(draw):
    c = draw(ref.est_case(dims=(1,), models=("Pos_gle_no_vel_basis", "Pos_gle_hybrid", "Pos_gle_const_kernel", "Pos_gle_overdamped"), max_trajs=2, min_len=80, max_len=160, obs=False, antider=True))
    c["basis"] = draw(st.one_of(gen.poly_spec(max_deg=2, rc=False, fams=gen.POLY_OK), gen.fourier_spec(max_order=1, rc=False)))
    c["way"] = draw(st.sampled_from([1, 1, -1]))
    return c


PROPERTY = Property(
    "C18",
    "one dimensional models and every family of bases with a primitive, mass computed or not, temperature, own or given coefficients, 1-9 points: differences of free energy compared with Gauss quadrature of the expansion of the force between the break points of the basis; slope compared with the evaluated force; numerical version compared with a trapezoidal integral of -(F - dm)/m on fine grids. Non-trivial: more than two points.",
    [SubCheck("pmf", cases, check, 500), SubCheck("numeric", num_cases, check_num, 150)],
    assumptions=["one dimension only: the code itself warns that the free energy is not meaningful in more dimensions", "numerical version with position dependent mass: kT = 1 only"],
)
