"""C11: the estimator's correlation functions are those of the data, whatever the options."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen, ref
from ..core import Property, SubCheck, as_np, close, require, rng_of


def scale_of(r, E, dE):
    return max(np.abs(E).max(), 1e-6), max(np.abs(dE).max(), 1e-6)


def check(case):
    r = ref.Ref(case)
    r.force()
    EV = np.concatenate([r.regressors(*a)[1] for a in r.arrays])
    if not np.isfinite(r.cond) or r.cond > 1e9 or np.abs(EV).max() < 1e-6 * 10.0 ** case["traj"]["vs"]:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    n = r.trunc_ind()
    with ref.threads():
        est = ref.estimator(r, dask=case["dask"], n_jobs=case["jobs"], trunc=case["trunc"] * r.dt if case["exact"] else None)
        require(int(est.model.trunc_ind) == n, "the correlations are computed on %s frames instead of %s", est.model.trunc_ind, n)
        if case["zero"]:
            est.set_zero_force()
        else:
            est.compute_mean_force()
        f = as_np(est.model.force_coeff)
        require(f.shape == (r.EF.shape[1], r.Lall.shape[1]), "force coefficients of shape %s", f.shape)
        if case["zero"]:
            require(np.all(f == 0), "set_zero_force does not set the force to zero")
        kw = {}
        if case["method"] is not None:
            kw = {"method": case["method"], "vectorize": case["vec"]}
        if not case["second"]:
            kw["second_order_method"] = False
        C0 = r.correlations(f, 1)[0][:, :, 0]
        keep = None
        if r.rank_projection and case["tol"]:
            # a tolerance in a gap of the spectrum: the functions below it are left out
            w = np.linalg.eigvalsh(C0)[::-1]
            cuts = [k for k in range(1, len(w)) if w[k - 1] > 1e-6 * w[0] and w[k - 1] > 20 * max(w[k], 1e-12 * w[0])]
            if cuts:
                keep = cuts[case["tol"] % len(cuts)]
                kw["rank_tol"] = float(np.sqrt(w[keep - 1] * max(w[keep], 1e-12 * w[0])))
        m = est.compute_corrs(**kw)
        require(m is est.model, "compute_corrs does not return the model")
        B, DxB, dB, dDxB = r.correlations(f, n)
        R = [r.regressors(*a) for a in r.arrays]
        sE = max(np.abs(q[1]).max() for q in R)
        sdE = max(np.abs(q[2]).max() for q in R)
        sx = max(np.abs(r.L(i) - q[0] @ f).max() for i, q in enumerate(R)) + 1e-9 * max(np.abs(q[0]).max() for q in R) * np.abs(f).max()
        obs_dim = est.bkdxcorrw.dims[1]
        gB = ref.dims_last(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
        gX = ref.dims_last(est.bkdxcorrw, "dim_basis", obs_dim, "time_trunc")
        gdX = ref.dims_last(est.dotbkdxcorrw, "dim_basis", obs_dim, "time_trunc")
        P = np.eye(B.shape[0])
        lab = ["full"]
        if r.rank_projection:
            P = as_np(est.model.P_range.transpose("dim_basis", "dim_basis_old"))
            close(P @ P.T, np.eye(len(P)), "orthonormality of the range projection", atol=1e-9)
            s0 = np.linalg.norm(C0, 2)
            # nothing is lost by the projection, and what is kept is invertible
            if keep is None:
                close(P.T @ (P @ C0), C0, "initial correlations within the range", rtol=1e-9, scale=s0)
            else:
                require(len(P) == keep, "%d functions are kept, %d are above the tolerance", len(P), keep)
                U = np.linalg.eigh(C0)[1][:, ::-1][:, :keep]
                close(P.T @ P, U @ U.T, "projection on the functions above the tolerance", atol=1e-7)
            small = np.linalg.eigvalsh(P @ C0 @ P.T).min()
            require(small > 1e-16 * s0, "the projected initial correlation is not invertible (%g)", small)
            ev = np.linalg.eigvalsh(C0)
            lo = np.sum(ev > 1e-9 * s0)
            hi = np.sum(ev > 1e-17 * s0)
            require(keep is not None or lo <= len(P) <= max(hi, lo), "rank %d, expected %d", len(P), lo)
            lab = ["tolerance" if keep is not None else "projected" if len(P) < len(C0) else "projection-full"]
        tol = 1e-9
        close(gB, np.einsum("ab,bcn,dc->adn", P, B, P), "basis correlations", rtol=tol, scale=sE**2)
        close(gX, np.einsum("ab,bcn->acn", P, DxB), "correlations of the basis with the observable", rtol=tol, scale=sE * sx)
        if case["second"]:
            gdB = ref.dims_last(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
            close(gdB, np.einsum("ab,bcn,dc->adn", P, dB, P), "derivative - basis correlations", rtol=tol, scale=sE * sdE)
            close(gdX, np.einsum("ab,bcn->acn", P, dDxB), "derivative - observable correlations", rtol=tol, scale=sdE * sx)
        else:
            close(gdX, np.einsum("ab,bcn->acn", P, dDxB)[:, :, :1], "derivative - observable correlation at time zero", rtol=tol, scale=sdE * sx)
        # the force regression removes the part of the observable along the functions of the force basis
        if not case["zero"] and r.model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped", "Pos_gle_with_friction"):
            w = gX[:, :, 0]
            close(w, np.zeros_like(w), "initial correlation with the observable", rtol=max(1e-9, 1e-13 * r.cond), scale=sE * sx + 1e-12)
            lab.append("orthogonal")
    labels = lab + [case["model"], "dim%d" % r.dim, case["basis"]["kind"], "%s-%s" % (case["method"], "vec" if case["vec"] else "novec"), "dask" if case["dask"] else "numpy", "jobs%d" % case["jobs"], "second" if case["second"] else "first"]
    return {"nontrivial": n > 4 and B.shape[0] + DxB.shape[1] > 1, "labels": labels}


@st.composite
def cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2, 1, 2, 3), max_trajs=3, min_len=24, max_len=100, huge=True))
    c["dask"] = draw(st.sampled_from([False, False, True])) and c["model"] != "Pos_gle_with_friction" and c["basis"]["kind"] != "tensor"
    c["jobs"] = draw(st.sampled_from([1, 1, 2]))
    c["method"] = draw(st.sampled_from([None, "fft", "direct"]))
    c["exact"] = draw(st.booleans())  # a truncation that is a multiple of the time step
    c["vec"] = draw(st.booleans())
    c["traj"]["vs"] = draw(st.sampled_from([0, 0, 0, -4, 4]))
    c["second"] = draw(st.sampled_from([True, True, False]))
    c["tol"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    c["zero"] = draw(st.sampled_from([False, False, False, True]))
    if draw(st.integers(0, 9)) == 0:
        c["trunc"] = draw(st.integers(90, 200))  # longer than some trajectories
    return c


def check_trunc(case):
    """the number of lags: those up to the truncation, or up to the duration of the shortest trajectory"""
    dt = case["dt"]
    ds = []
    for i, (n, t0) in enumerate(zip(case["lens"], case["t0"])):
        x = rng_of(case["seed"], i).normal(size=(n, 1))
        ds.append(xr.Dataset({"x": (["time", "dim_x"], x), "v": (["time", "dim_x"], x[::-1].copy())}, coords={"time": (t0 + np.arange(n)) * dt}, attrs={"dt": dt}))
    est = vb.Estimator_gle(ds, vb.Pos_gle_overdamped, bf.LinearFeatures(), trunc=(case["k"] + case["frac"]) * dt, saveall=False, verbose=False)
    want = min(min(case["lens"]), case["k"] + 1)
    require(int(est.model.trunc_ind) == want, "truncation after %s frames instead of %s", est.model.trunc_ind, want)
    est.compute_mean_force()
    est.compute_corrs(second_order_method=False)
    require(est.bkbkcorrw.sizes["time_trunc"] == want and est.bkdxcorrw.sizes["time_trunc"] == want, "correlations over %s frames instead of %s", est.bkbkcorrw.sizes["time_trunc"], want)
    return {"nontrivial": len(ds) > 1, "labels": ["trunc", "shortest" if want < case["k"] + 1 else "asked"]}


@st.composite
def trunc_cases(draw):
    N = draw(st.sampled_from([1, 2, 3, 5, 9, 17, 30]))
    lens = [draw(st.integers(4, 40)) for _ in range(N)]
    if draw(st.booleans()):
        lens[draw(st.integers(0, N - 1))] = draw(st.integers(3, 6))
    return {"lens": lens, "t0": [draw(st.sampled_from([0, 0, 5, -3, 1000])) for _ in lens], "dt": draw(st.sampled_from([0.1, 0.01, 1.0, 1 / 3, 2.5e-4, 20.0])), "k": draw(st.integers(1, 45)), "frac": draw(st.sampled_from([0.0, 0.3, 0.9])), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C11",
    "random model, basis, 1-3 trajectories (numpy/dask, 1-2 jobs), own or user observable, every correlation option; the four correlation functions compared, at every lag, with averages over pairs of frames pooled over the trajectories, in the basis projected on its range when the projection applies. Non-trivial: more than four lags and more than one correlation function.",
    [SubCheck("corrs", cases, check, 450), SubCheck("truncation", trunc_cases, check_trunc, 100)],
    assumptions=["the range projection is judged by its properties (orthonormal rows, no loss, invertible), not by its entries", "parallel jobs run on the threading backend of joblib"],
)
