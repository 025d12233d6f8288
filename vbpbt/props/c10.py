"""C10: mean force, Gram matrices, basis means and masses are pooled averages / least squares over all the samples."""
import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Property, SubCheck, as_np, close, require


def tol(cond):
    return min(1e-5, 1e-12 * max(cond, 1.0) + 1e-10)


def check(case):
    r = ref.Ref(case)
    f = r.force()
    if not np.isfinite(r.cond) or r.cond > 1e8:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    with ref.threads():
        est = ref.estimator(r, dask=case["dask"], n_jobs=case["jobs"])
        m = est.compute_mean_force()
        require(m is est.model, "compute_mean_force does not return the model")
        got = as_np(m.force_coeff)
        sc = max(np.abs(f).max(), np.abs(r.disp).max(), 1e-12)
        close(got, f, "force coefficients", rtol=tol(r.cond), scale=sc)
        close(m.gram_force, r.gram, "gram of the force", rtol=1e-10)
        # normal equations: the residual is orthogonal to every function of the basis
        res = r.EF.T @ (r.Lall - r.EF @ got) / r.tot
        close(res, np.zeros_like(res), "orthogonality of the residual", rtol=tol(r.cond), scale=max(np.abs(r.gram).max(), np.abs(r.disp).max()) * max(1.0, np.abs(got).max()))
        # gram alone
        est.model.gram_force = None
        est.compute_gram_force()
        close(est.model.gram_force, r.gram, "compute_gram_force", rtol=1e-10)
        # means
        bm = est.compute_basis_mean()
        close(bm, r.EF.mean(axis=0), "mean of the basis", rtol=1e-10, scale=max(1e-3, np.abs(r.EF).mean()))
        KB = np.concatenate([r.kernel_basis(a[0]) for a in r.arrays])
        km = as_np(est.compute_basis_mean(basis_type="kernel"))
        close(km, KB.mean(axis=0), "mean of the kernel basis", rtol=1e-10, scale=max(1e-3, np.abs(KB).mean()))
        # velocities
        V = np.concatenate([a[1] for a in r.arrays])
        v2 = V.T @ V / r.tot
        est.compute_effective_mass()
        u = np.sqrt(np.diag(v2))  # in units of the typical velocities
        w2 = v2 / np.outer(u, u)
        close(as_np(est.model.eff_mass) * np.outer(u, u), np.linalg.inv(w2), "effective mass", rtol=1e-10 * np.linalg.cond(w2))
        labels = [case["model"], "dim%d" % r.dim, case["basis"]["kind"], "obs%d" % case["obs"], "dask" if case["dask"] else "numpy", "jobs%d" % case["jobs"]]
        if (r.dim == 1 or case["model"] in ref.VEL + ("Pos_gle_const_kernel",)) and not r.rank_projection:
            G = np.einsum("nkd,nld->kl", KB, KB) / r.tot
            c = np.linalg.cond(G)
            est.compute_gram_kernel()
            close(est.model.gram_kernel, G, "gram of the kernel basis", rtol=1e-10)
            if c < 1e7:
                d = np.einsum("nkd,nd,ne->ke", KB, V, V) / r.tot
                want = np.linalg.solve(G, d)
                est.compute_pos_effective_mass()
                close(est.model.inv_mass_coeff, want, "position dependent mass", rtol=tol(c), scale=np.abs(want).max())
                labels.append("posmass")
    return {"nontrivial": len(r.lens) > 1 or r.tot > 60, "labels": labels}


@st.composite
def cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2, 3), max_trajs=4, min_len=30, max_len=120, huge=True))
    c["dask"] = draw(st.booleans()) and c["model"] != "Pos_gle_with_friction" and c["basis"]["kind"] != "tensor"
    for n in draw(st.sampled_from([[], [], [], [2], [3], [2, 2, 3]])):  # very short ones count for what they are
        c["traj"]["lens"].insert(draw(st.integers(0, len(c["traj"]["lens"]))), n)
    if c["dim"] > 1 and draw(st.integers(0, 2)) == 0:
        c["traj"]["aniso"] = draw(st.lists(st.integers(-3, 3), min_size=c["dim"], max_size=c["dim"]))
    c["jobs"] = draw(st.sampled_from([1, 1, 2, 3]))
    return c


PROPERTY = Property(
    "C10",
    "random model, basis, 1-4 trajectories of different lengths (numpy or dask, 1-3 jobs), own observable or a user one; the estimator's averages compared with numpy on the concatenated samples, and the normal equations of the force regression verified. Non-trivial: several trajectories or more than 60 samples, condition number of the Gram matrix below 1e8.",
    [SubCheck("static", cases, check, 500)],
    assumptions=["tolerance grows with the condition number of the Gram matrix", "parallel jobs run on the threading backend of joblib"],
)
