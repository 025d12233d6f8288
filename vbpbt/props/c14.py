"""C14: the force and the memory do not depend on how the same data and the same function space are presented."""
import numpy as np
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen, ref, volterra
from ..core import Property, SubCheck, as_np, close, require, rng_of


def run(model, basis, arrays, dt, trunc, method, obs=None, dask=False):
    ds = gen.make_trajs({"dt": dt}, arrays=arrays, dask=dask)
    kw = {}
    if obs is not None:
        for d, o in zip(ds, obs):
            d["obs"] = (("time", "dim_x" if o.shape[1] == arrays[0][0].shape[1] else "dim_o"), o.copy())
        kw["L_obs"] = "obs"
    est = vb.Estimator_gle(ds, gen.MODELS[model], gen.build(basis), trunc=(trunc + 0.5) * dt, verbose=False, saveall=False, **kw)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method=method)
    return est


def quality(est, method):
    o = est.bkdxcorrw.dims[1]
    B = ref.dims_last(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    dB = ref.dims_last(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    ker = as_np(est.model.kernel)
    g = np.abs(ker).max() / (np.abs(ker[0]).max() + 1e-300)
    return max(np.linalg.cond(volterra.lead(method, B, dB, float(est.dt))), np.linalg.cond(B[:, :, 0]), np.linalg.cond(as_np(est.model.gram_force))), g


def graded(est, method):
    """Condition of the problem when functions of different scales are no difficulty, as it is without projection."""
    res = []
    for G in (as_np(est.model.gram_force), ref.dims_last(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")[:, :, 0]):
        d = np.sqrt(np.abs(np.diag(G)))
        res.append(np.linalg.cond(G / np.outer(d, d)))
    if est.model.rank_projection:
        res.append(np.linalg.cond(G))
    return max(res)


def kernel_at(est, x):
    """(time, point, obs, dim)"""
    ev = est.model.kernel_eval(x)
    o = est.model.kernel.dims[2]
    return as_np(ev.transpose("time_kernel", "time", o, "dim_x'"))


def close_growing(got, want, what, rtol):
    require(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    g = volterra.grow(want)
    for i in range(len(got)):
        close(got[i], want[i], "%s (frame %d)" % (what, i), rtol=rtol, scale=max(g[min(i + 1, len(g) - 1)], 1e-10 * g[-1]) + 1e-300)


def check(case):
    arrays = gen.make_arrays(case["traj"])
    dt, dim, model, method = case["traj"]["dt"], case["dim"], case["model"], case["method"]
    rng = rng_of(case["traj"]["seed"], 4)
    args = (dt, case["trunc"], method)
    if not ref.Ref(case).healthy(method):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    base = run(model, case["basis"], arrays, *args)
    cond, g = quality(base, method)
    if not np.isfinite(cond) or cond > 1e6 or g > 1e6:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    tol = max(1e-8, 1e-10 * cond)
    xs = np.concatenate([a[0] for a in arrays])
    pts = xs[rng.integers(0, len(xs), size=7)]
    f0 = as_np(base.model.force_eval(pts))
    k0 = kernel_at(base, pts)
    how = case["how"]
    fmul, kmul, pts2, dx = 1.0, 1.0, pts, 0.0
    lab = [how, model, method, "dim%d" % dim]
    if how == "order":
        perm = rng.permutation(len(arrays))
        other = run(model, case["basis"], [arrays[i] for i in perm], *args)
    elif how == "duplicate":
        other = run(model, case["basis"], arrays + arrays, *args)
    elif how == "dask":
        other = run(model, case["basis"], arrays, *args, dask=True)
    elif how == "time unit":
        mu = case["mu"]
        other = run(model, case["basis"], [(x, v / mu, a / mu**2) for x, v, a in arrays], dt * mu, case["trunc"], method)
        vel_obs = ref.LOBS[model] == "v"
        fmul = 1 / mu if vel_obs else 1 / mu**2
        # memory = integral of kernel times basis over time: 1/mu^2 with velocities in the basis, same with v as observable and positions
        kmul = 1 / mu**3 if model == "Pos_gle_hybrid" else 1 / mu**2
    elif how == "family":
        b2 = dict(case["basis"], fam=case["fam2"])
        other = run(model, b2, arrays, *args)
        c2, g2 = quality(other, method)
        if c2 > 1e6:
            return {"nontrivial": False, "labels": ["ill-conditioned"]}
        tol = max(tol, 1e-10 * c2)
    elif how == "projection":
        other = run(model, dict(case["basis"], rc=not case["basis"]["rc"]), arrays, *args)
        require(bool(other.model.rank_projection) != bool(base.model.rank_projection), "the projection on the range is done when the constant is %s", "removed" if case["basis"]["rc"] else "kept")
        c2, g2 = quality(other, method)
        tol = max(tol, 1e-10 * c2)
    elif how == "translate":
        c = np.round(rng.normal(size=dim), 2)
        other = run(model, case["basis"], [(x + c, v, a) for x, v, a in arrays], *args)
        c2, g2 = quality(other, method)
        if c2 > 1e6:
            return {"nontrivial": False, "labels": ["ill-conditioned"]}
        tol = max(tol, 1e-10 * c2)
        pts2 = pts + c
    elif how == "reflect":
        other = run(model, case["basis"], [(-x, -v, -a) for x, v, a in arrays], *args)
        c2, g2 = quality(other, method)
        tol = max(tol, 1e-10 * c2)
        pts2 = -pts
        fmul = -1.0
        kmul = -1.0 if model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped", "Pos_gle_hybrid") else 1.0
        # the memory acts on functions of the position, that keep their sign, or on velocities, that do not
    elif how == "length unit":
        lam = case["lam"]
        other = run(model, case["basis"], [(lam * x, lam * v, lam * a) for x, v, a in arrays], *args)
        c2 = graded(other, method)
        if not c2 < 1e9:
            return {"nontrivial": False, "labels": ["ill-conditioned"]}
        require(other.model.kernel.shape == base.model.kernel.shape, "kernel of shape %s in units of %g, %s otherwise", other.model.kernel.shape, 1 / lam, base.model.kernel.shape)
        tol = max(tol, 1e-11 * c2)
        pts2 = lam * pts
        fmul = lam
        kmul = lam if model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped", "Pos_gle_hybrid") else 1.0
    elif how == "observable":
        # linear in the observable
        o1 = [a for x, v, a in arrays]
        o2 = [np.tanh(x) + rng.normal(size=x.shape) for x, v, a in arrays]
        e1 = run(model, case["basis"], arrays, *args, obs=o1)
        e2 = run(model, case["basis"], arrays, *args, obs=o2)
        e3 = run(model, case["basis"], arrays, *args, obs=[1.5 * p - 0.5 * q for p, q in zip(o1, o2)])
        want = 1.5 * as_np(e1.model.force_coeff) - 0.5 * as_np(e2.model.force_coeff)
        close(e3.model.force_coeff, want, "force of a combination of observables", rtol=tol, scale=np.abs(as_np(e1.model.force_coeff)).max() + np.abs(as_np(e2.model.force_coeff)).max())
        k1, k2, k3 = (as_np(e.model.kernel) for e in (e1, e2, e3))
        gg = volterra.grow(k1) + volterra.grow(k2)
        if not base.model.rank_projection and gg[-1] < 1e6 * gg[0]:
            for i in range(len(k3)):
                close(k3[i], 1.5 * k1[i] - 0.5 * k2[i], "kernel of a combination of observables, frame %d" % i, rtol=tol, scale=gg[min(i + 1, len(gg) - 1)] + 1e-300)
        return {"nontrivial": True, "labels": lab}
    elif how == "split":
        # the mean force only depends on the set of frames
        cut = [int(rng.integers(3, len(a[0]) - 3)) for a in arrays]
        parts = [tuple(z[:c] for z in a) for a, c in zip(arrays, cut)] + [tuple(z[c:] for z in a) for a, c in zip(arrays, cut)]
        ds = gen.make_trajs({"dt": dt}, arrays=parts)
        est = vb.Estimator_gle(ds, gen.MODELS[model], gen.build(case["basis"]), trunc=2.5 * dt, verbose=False, saveall=False)
        est.compute_mean_force()
        close(est.model.force_eval(pts), f0, "force with the trajectories cut in two", rtol=tol, scale=np.abs(f0).max() + np.abs(as_np(base.model.force_coeff)).max())
        return {"nontrivial": True, "labels": lab}
    f1 = as_np(other.model.force_eval(pts2))
    k1 = kernel_at(other, pts2)
    sc = np.abs(f0).max() * abs(fmul)
    sc += 1e-3 * np.abs(as_np(other.model.force_coeff)).max() * np.abs(as_np(other.model.basis.basis(pts2))).max()
    close(f1, f0 * fmul, "force after the transformation '%s'" % how, rtol=tol, scale=sc + 1e-300)
    close_growing(k1, k0 * kmul, "memory kernel after the transformation '%s'" % how, tol * 10)
    return {"nontrivial": True, "labels": lab}


POLYLIKE = ("family", "projection", "translate", "reflect", "length unit")


@st.composite
def cases(draw):
    how = draw(st.sampled_from(["order", "duplicate", "dask", "time unit", "family", "projection", "translate", "reflect", "observable", "split", "length unit", "length unit"]))
    models = list(gen.MODELS)
    if how == "projection":
        models = ["Pos_gle"]
    if how == "length unit":
        models += ["Pos_gle"] * 4
    if how == "observable":
        models.remove("Pos_gle_const_kernel")
    if how == "dask":
        models.remove("Pos_gle_with_friction")
    if how in POLYLIKE:
        model = draw(st.sampled_from(models))
        rc = True if model == "Pos_gle_with_friction" else draw(st.booleans())
        c = {"dim": 1, "model": model, "basis": {"kind": "poly", "deg": draw(st.integers(1, 3)), "fam": draw(st.sampled_from(gen.POLY_OK)), "rc": rc}}
        c["fam2"] = draw(st.sampled_from(gen.POLY_OK))
        if how == "length unit":
            c["basis"]["deg"] = draw(st.integers(1, 2))
            c["basis"]["fam"] = "Polynomial"  # powers only change their scale
            c["lam"] = draw(st.sampled_from([10.0, 0.1, 1e-2, 1e-3, 1e-4, 3e-5, 100.0, 1e3]))
    else:
        c = draw(gen.model_basis(dims=(1, 1, 2), models=tuple(models)))
        if how == "dask" and c["basis"]["kind"] == "tensor":
            c["basis"] = {"kind": "linear", "center": False}
    c["traj"] = draw(gen.traj_spec(dim=c["dim"], min_len=50, max_len=140, max_trajs=3, min_trajs=2 if how == "order" else 1, kinds=("noise", "ar")))
    c["how"] = how
    c["trunc"] = draw(st.integers(5, 12))
    c["mu"] = draw(st.sampled_from([2.0, 0.5, 10.0, 0.1, 3.0]))
    c["method"] = draw(st.sampled_from(["second_kind_rect", "second_kind_trapz", "trapz", "rect", "midpoint"]))
    return c


PROPERTY = Property(
    "C14",
    "random model, basis and trajectories; the force and the memory kernel evaluated at points of the data are compared between two presentations of the same problem: trajectories in another order, repeated, lazy, in another time unit, another polynomial family, constant removed or projected out, translated or reflected coordinate, linear combination of observables, trajectories cut in two (force). Non-trivial: matrices inverted with condition number below 1e6 and a kernel that grows by less than 1e6.",
    [SubCheck("invariance", cases, check, 500)],
    assumptions=["tolerance proportional to the condition numbers"],
)
