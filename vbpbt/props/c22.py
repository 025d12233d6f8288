"""C22: generalised Fokker-Planck setting: the observable is the time derivative of the basis; probability is conserved."""
import numpy as np
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen, ref, volterra
from ..core import Property, SubCheck, as_np, close, require, rng_of


def check(case):
    r = ref.Ref(case)
    if not r.healthy(case["method"]):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    ds = ref.trajs(r)
    est = ref.estimator(r, ds=ds)
    name = case["name"]
    n_own = int(est.model.N_basis_elt)
    if case["twice"] and n_own % r.dim == 0:  # what was there under this name is replaced
        est.to_gfpe(vb.Pos_gle_overdamped(gen.build({"kind": "poly", "deg": n_own // r.dim - 1, "fam": "Polynomial", "rc": False}), r.dt, dim_x=r.dim, dim_obs=r.dim, describe_data=est.describe_data()), name or "dE")
    if name:
        est.to_gfpe(new_obs_name=name)
    else:
        est.to_gfpe()
        name = "dE"
    R = [r.regressors(*a) for a in r.arrays]
    N = R[0][1].shape[1]
    for d, (EF, E, dE) in zip(est.xva_list, R):
        require(name in d, "the observable %s is not in the trajectory", name)
        close(d[name].transpose("time", ...), dE, "time derivative of the basis", rtol=1e-10, scale=np.abs(dE).max() + 1e-300)
    require(est.model.L_obs == name and int(est.model.dim_obs) == N, "the model is still set for %s of dimension %s", est.model.L_obs, est.model.dim_obs)
    est.compute_mean_force()
    f = as_np(est.model.force_coeff)
    E = np.concatenate([q[1] for q in R])
    dE = np.concatenate([q[2] for q in R])
    G = E.T @ E / r.tot
    want = np.linalg.solve(G, E.T @ dE / r.tot)
    c = np.linalg.cond(G)
    sf = np.abs(want).max() + np.abs(dE).max() * 1e-3
    close(f, want, "rate matrix", rtol=max(1e-9, 1e-12 * c), scale=sf)
    # the functions of the basis sum to one: nothing is created
    close(f.sum(axis=1), np.zeros(N), "sum over the final states of the rate matrix", rtol=max(1e-9, 1e-12 * c), scale=sf * N)
    est.compute_corrs()
    est.compute_kernel(method=case["method"])
    ker = as_np(est.model.kernel)
    require(ker.shape[1:] == (N, N), "kernel of shape %s", ker.shape)
    g = volterra.grow(ker)
    B = ref.dims_last(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    dB = ref.dims_last(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    cond = np.linalg.cond(volterra.lead(case["method"], B, dB, r.dt)) * c
    for i in range(len(ker)):
        close(ker[i].sum(axis=1), np.zeros(N), "sum over the final states of the kernel, frame %d" % i, rtol=max(1e-7, 1e-11 * cond), scale=(g[i] + np.abs(f).max() / r.dt) * N)
    labels = [case["model"], case["basis"]["kind"], "dim%d" % r.dim, case["method"]]
    if case["model"] == "Pos_gle_overdamped" and g[-1] < 1e4 * (g[0] + 1e-300):
        rng = rng_of(case["traj"]["seed"], 2)
        P0 = np.abs(rng.normal(size=(N, N))) + 0.1
        P0 /= P0.sum(axis=1, keepdims=True)
        n = len(ker)
        t, P = est.model.evolve_volterra(P0, n)
        sc = np.maximum.accumulate(np.abs(P).reshape(-1, n).max(axis=0))
        if np.all(np.isfinite(P)) and sc[-1] < 1e6:
            for i in range(n):
                close(P[:, :, i].sum(axis=1), np.ones(N), "total probability at step %d" % i, rtol=max(1e-7, 1e-11 * cond), scale=sc[i] * N)
            labels.append("evolved")
    return {"nontrivial": N > 1, "labels": labels}


def check_other(case):
    """the observable is the derivative of the basis of another model"""
    r = ref.Ref(case)
    ds = ref.trajs(r)
    est = ref.estimator(r, ds=ds)
    X = [as_np(d["x"]).copy() for d in ds]
    V = [as_np(d["v"]).copy() for d in ds]
    spec = case["other"]
    other = vb.Pos_gle_overdamped(gen.build(spec), r.dt, dim_x=r.dim, dim_obs=r.dim, describe_data=est.describe_data())
    if case["twice"] and int(est.model.N_basis_elt) == int(other.N_basis_elt):
        est.to_gfpe(new_obs_name=case["name"] or "dE")
    est.model.rank_projection = case["rank"]
    if case["name"]:
        est.to_gfpe(other, case["name"])
    else:
        est.to_gfpe(model=other)
    name = case["name"] or "dE"
    ref_basis = gen.build(spec)
    ref_basis.fit(np.concatenate(X))
    ref_basis.const_removed = False
    N = None
    for d, x, v in zip(est.xva_list, X, V):
        want = np.einsum("nkd,nd->nk", ref_basis.deriv(x), v)
        N = want.shape[1]
        close(d[name].transpose("time", ...), want, "time derivative of the basis of the model given", rtol=1e-10, scale=np.abs(want).max() + 1e-300)
        require(np.array_equal(as_np(d["x"]), x) and np.array_equal(as_np(d["v"]), v), "the trajectory has been modified")
    require(est.model.L_obs == name and int(est.model.dim_obs) == N, "the model is still set for %s of dimension %s", est.model.L_obs, est.model.dim_obs)
    require(not est.model.rank_projection, "the memory is still projected")
    if not r.healthy("rect"):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    est.compute_mean_force()
    E = np.concatenate([r.regressors(*a)[0] for a in r.arrays])
    dE = np.concatenate([np.einsum("nkd,nd->nk", ref_basis.deriv(x), v) for x, v in zip(X, V)])
    G = E.T @ E / r.tot
    want = np.linalg.solve(G, E.T @ dE / r.tot)
    close(est.model.force_coeff, want, "rate matrix", rtol=max(1e-9, 1e-12 * np.linalg.cond(G)), scale=np.abs(want).max() + np.abs(dE).max() * 1e-3)
    return {"nontrivial": N > 1, "labels": ["other", "dim%d" % r.dim]}


@st.composite
def other_cases(draw):
    c = draw(cases())
    if c["dim"] == 1:
        c["other"] = draw(st.one_of(gen.poly_spec(max_deg=3), gen.fourier_spec(max_order=2), gen.bspline_spec(kmax=3, periodic=False)))
    else:
        c["other"] = draw(st.one_of(gen.poly_spec(max_deg=3), gen.fourier_spec(max_order=2)))
    c["rank"] = draw(st.booleans())
    return c


@st.composite
def cases(draw):
    c = {"model": draw(st.sampled_from(["Pos_gle_overdamped", "Pos_gle_overdamped", "Pos_gle_no_vel_basis"])), "dim": draw(st.sampled_from([1, 1, 2]))}
    ind = gen.indicator_spec(max_states=2, periodic=False, starts=(-1.0, -0.6), types=("tricube", "triweight", "quartic", "user"))
    if c["dim"] == 1:
        c["basis"] = draw(st.one_of(ind, gen.bspline_spec(rc=False, kmax=3, periodic=False)))
    else:
        one = gen.indicator_spec(max_states=1, periodic=False, starts=(-1.0, -0.6))
        c["basis"] = {"kind": "tensor", "b1": draw(one), "b2": draw(one)}
    c["traj"] = draw(gen.traj_spec(dim=c["dim"], min_len=60, max_len=160, max_trajs=3, kinds=("noise", "ar")))
    if draw(st.integers(0, 9)) == 3:
        c["traj"]["lens"] = draw(st.lists(st.integers(60, 100), min_size=5, max_size=9))
    c["trunc"] = draw(st.integers(4, 10))
    c["obs"] = 0
    c["method"] = draw(st.sampled_from(["rect", "trapz", "second_kind_rect", "second_kind_trapz"]))
    c["name"] = draw(st.sampled_from([None, None, "rate"]))
    c["twice"] = draw(st.integers(0, 3)) == 2
    return c


PROPERTY = Property(
    "C22",
    "bases whose functions sum to one (smoothed indicators, B-splines, products) on random trajectories: derivative of the basis along the trajectories, rate matrix, rows of the rate matrix and of the kernel that sum to zero, total probability along the evolution; the same with the derivative of the basis of another model as observable. Non-trivial: more than one state.",
    [SubCheck("gfpe", cases, check, 500), SubCheck("other", other_cases, check_other, 150)],
    assumptions=["to_gfpe adds the observable to the trajectories, by design"],
)
