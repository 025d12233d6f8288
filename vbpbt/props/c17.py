"""C17: force, kernel, friction and mass evaluated at any point are the expansions on the basis."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, SubCheck, as_np, close, require, rng_of


def shapes_of(pts, how, dim):
    if how == "list":
        return [[float(c) for c in p] for p in pts] if dim > 1 else [float(p[0]) for p in pts]
    if how == "flat":
        return pts.ravel()
    if how == "dataset":
        return xr.Dataset({"x": (("time", "dim_x"), pts.copy())})
    return pts.copy()


def check(case):
    r = ref.Ref(case)
    if not r.healthy("second_kind_rect"):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    est = ref.estimator(r)
    m = est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method="second_kind_rect")
    rng = rng_of(case["traj"]["seed"], 17)
    n = case["npts"]
    pts = r.xs[rng.integers(0, len(r.xs), size=n)] * rng.uniform(0.3, 1.0, size=(n, 1))
    lo, hi = r.xs.min(axis=0), r.xs.max(axis=0)
    pts = np.clip(pts, lo, hi)
    arg = lambda: shapes_of(pts, case["how"], r.dim)
    b = r.basis
    f = as_np(m.force_coeff)
    fb = b.basis(pts)
    NB = fb.shape[1]
    sc = np.abs(fb).max()
    close(m.force_eval(arg()), fb @ f[:NB], "force", rtol=1e-9, scale=sc * np.abs(f).max() + 1e-300)
    close(est.force_eval(arg()), fb @ f[:NB], "force from the estimator", rtol=1e-9, scale=sc * np.abs(f).max() + 1e-300)
    labels = [case["model"], case["how"], "dim%d" % r.dim]
    if case["model"] == "Pos_gle_with_friction":
        D = b.deriv(pts)
        want = np.einsum("nkd,kl->nld", D, f[NB:])
        close(m.friction_force_eval(arg()), want, "friction", rtol=1e-9, scale=np.abs(D).max() * np.abs(f).max() + 1e-300)
        labels.append("friction")
    elif not case.get("obs"):
        c = rng.normal(size=f.shape)
        keep = c.copy()
        close(m.force_eval(arg(), coeffs=c), fb @ c, "force with given coefficients", rtol=1e-9, scale=sc * 5)
        cx = xr.DataArray(c, dims=m.force_coeff.dims)
        close(m.force_eval(arg(), coeffs=cx), fb @ c, "force with given named coefficients", rtol=1e-9, scale=sc * 5)
        close(m.force_eval(arg(), coeffs=cx.T if c.shape[0] == c.shape[1] else cx), fb @ c, "force with given named coefficients, in the other order", rtol=1e-9, scale=sc * 5)
        require(np.array_equal(c, keep), "the coefficients have been modified")
        require(np.array_equal(as_np(m.force_coeff), f), "evaluating with other coefficients changes the force of the model")
    # kernel
    KB = r.kernel_basis(pts)
    if r.rank_projection:
        P = as_np(m.P_range.transpose("dim_basis", "dim_basis_old"))
        KB = np.einsum("ak,nkd->nad", P, KB)
    ker = as_np(m.kernel)
    used = ker[:, 1:] if case["model"] == "Pos_gle_hybrid" else ker
    o = m.kernel.dims[2]
    ev = m.kernel_eval(arg())
    got = as_np(ev.transpose("time_kernel", "time", o, "dim_x'"))
    want = np.einsum("tko,nkd->tnod", used, KB)
    sk = np.abs(KB).max() * np.abs(used).max() * used.shape[1] + 1e-300
    close(got, want, "kernel", rtol=1e-9, scale=sk)
    close(ev["time_kernel"], np.arange(len(ker)) * r.dt, "times of the kernel", rtol=1e-9)
    if case["model"] == "Pos_gle_hybrid":
        close(m.get_const_kernel_part(), ker[:, 0], "position independent part", rtol=1e-12)
        labels.append("hybrid")
    else:
        c = rng.normal(size=(case["npts"] + 2,) + ker.shape[1:])
        for cc in (c, xr.DataArray(c, dims=m.kernel.dims)):
            got = as_np(m.kernel_eval(arg(), coeffs_ker=cc).transpose("time_kernel", "time", o, "dim_x'"))
            close(got, np.einsum("tko,nkd->tnod", c, KB), "kernel with given coefficients", rtol=1e-9, scale=np.abs(KB).max() * 5 * KB.shape[1] + 1e-300)
        require(np.array_equal(as_np(m.kernel), ker), "evaluating with other coefficients changes the kernel of the model")
    # the same array with other points, results overwritten
    if n > 1:
        Z = pts.copy()
        m.force_eval(Z)[...] = -3.0
        k1 = as_np(m.kernel_eval(Z)).copy()
        Z[:] = pts[::-1]
        close(m.force_eval(Z), (fb @ f[:NB])[::-1], "force at an array whose points have changed", rtol=1e-9, scale=sc * np.abs(f).max() + 1e-300)
        k2 = m.kernel_eval(Z)
        close(np.flip(as_np(k2), axis=k2.dims.index("time")), k1, "kernel at an array whose points have changed", rtol=1e-9, scale=sk)
        if r.dim == 1 or case["how"] == "dataset":  # the times of the points do not matter
            D = xr.Dataset({"x": (["time", "dim_x"], pts)}, coords={"time": np.arange(n)[::-1] * 0.5})
            close(m.force_eval(D), fb @ f[:NB], "force at the points of a dataset with times", rtol=1e-9, scale=sc * np.abs(f).max() + 1e-300)
        if case["model"] != "Pos_gle_with_friction":
            old = m.force_coeff
            m.force_coeff = 2.0 * old
            close(m.force_eval(Z), 2.0 * (fb @ f[:NB])[::-1], "force after the coefficients have changed", rtol=1e-9, scale=2 * sc * np.abs(f).max() + 1e-300)
            m.force_coeff = old
    # masses
    if (r.dim == 1 or case["model"] in ref.VEL + ("Pos_gle_const_kernel",)) and not r.rank_projection and not case.get("obs"):
        KA = np.concatenate([r.kernel_basis(a[0]) for a in r.arrays])
        G = np.einsum("nkd,nld->kl", KA, KA) / r.tot
        if np.linalg.cond(G) < 1e6:
            est.compute_pos_effective_mass()
            c = as_np(m.inv_mass_coeff)
            got = m.inv_mass_eval(arg())
            close(got, np.einsum("nkd,ke->nde", r.kernel_basis(pts), c), "inverse mass", rtol=1e-9, scale=np.abs(KA).max() * np.abs(c).max() * c.shape[0])
            labels.append("mass")
    if case["model"] not in ("Pos_gle_with_friction",):
        c = rng.normal(size=(NB, r.dim, r.dim))
        got = m.inv_mass_eval(arg(), coeffs=xr.DataArray(c, dims=("dim_basis", "dim_x", "dim_x'")))
        close(got, np.einsum("nk,kde->nde", fb, c), "inverse mass with given coefficients", rtol=1e-9, scale=sc * 5 * NB)
    return {"nontrivial": n > 1 and NB > 1, "labels": labels}


@st.composite
def cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2, 3), max_trajs=2, min_len=40, max_len=90))
    if c["dim"] == 3 and c["model"] == "Pos_gle_hybrid":
        c["dim"] = 1
    c["trunc"] = draw(st.integers(4, 8))
    c["npts"] = draw(st.one_of(*[st.integers(1, 12)] * 9, st.integers(400, 1500)))
    c["how"] = draw(st.sampled_from(["array", "list", "dataset"] + (["flat"] if c["dim"] == 1 else [])))
    return c


PROPERTY = Property(
    "C17",
    "every model and family of bases in 1-3 dimensions, points given as arrays, lists or datasets, coefficients of the model or of the user (plain or named arrays): force, friction, kernel, masses compared with the explicit expansion. Non-trivial: several points and several functions.",
    [SubCheck("evaluate", cases, check, 400)],
)
