"""C28: what the estimator computes depends on the data and on the chosen options, not on the calls made before."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen, ref
from ..core import Property, SubCheck, as_np, close, require, rng_of

METHODS = ["rect", "rectangular", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]
GIVEN = ["trapz", "second_kind_rect", "second_kind_trapz"]  # the initial value may be given
MODEL_KEYS = ["force_coeff", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff", "kernel", "P_range", "method", "rank_projection"]
CORRS = ["bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw"]


def snap_data(ds_list):
    return [({k: as_np(d[k]).copy() for k in list(d.data_vars) + list(d.coords)}, {k: d[k].dims for k in d.data_vars}, dict(d.attrs)) for d in ds_list]


def same_data(ds_list, snap):
    require(len(ds_list) == len(snap), "the list of trajectories has changed")
    for i, (d, (arrs, dims, attrs)) in enumerate(zip(ds_list, snap)):
        require(set(list(d.data_vars) + list(d.coords)) == set(arrs), "trajectory %d: variables %s instead of %s", i, sorted(map(str, d.variables)), sorted(arrs))
        for k, a in arrs.items():
            require(np.array_equal(as_np(d[k]), a, equal_nan=True), "trajectory %d: %s has been modified", i, k)
        for k, dm in dims.items():
            require(d[k].dims == dm, "trajectory %d: dimensions of %s have changed", i, k)
        require(dict(d.attrs) == attrs, "trajectory %d: attributes have changed", i)


def cmp(a, b, what, scale_extra=0.0):
    """a (with history) against b (fresh): the same computation, the same numbers."""
    require((a is None) == (b is None), "%s is %s after this history and %s in a new estimator", what, "missing" if a is None else "there", "missing" if b is None else "there")
    if a is None:
        return
    if isinstance(b, (str, bool)):
        require(a == b, "%s is %r instead of %r", what, a, b)
        return
    if isinstance(b, xr.DataArray):
        require(isinstance(a, xr.DataArray) and a.dims == b.dims, "%s has dimensions %s instead of %s", what, getattr(a, "dims", None), b.dims)
        require(set(a.coords) == set(b.coords), "%s: coordinates differ", what)
        for c in b.coords:
            close(a[c], b[c], what + " " + str(c), rtol=1e-12)
    a, b = as_np(a), as_np(b)
    if what == "kernel" and a.shape == b.shape:  # errors of the recursion are relative to what came before
        g = np.maximum.accumulate(np.abs(np.nan_to_num(b)).reshape(len(b), -1).max(axis=1)).reshape((-1,) + (1,) * (b.ndim - 1))
        ok = np.isfinite(b)
        if not ok.any():  # a singular problem: nothing but nan
            require(np.array_equal(np.isfinite(a), ok), "%s: values where there were none", what)
            return
        close(a, b, what, rtol=1e-7, scale=g + 0 * b if ok.all() else np.broadcast_to(g, b.shape)[ok].max())
        return
    close(a, b, what, rtol=1e-8, atol=1e-300)


class Model:
    """What has been asked so far: the minimal sequence of calls that leads to each result."""

    def __init__(self):
        self.force = None  # ("mean",) or ("zero",)
        self.corrs = None  # (force, options)
        self.kernel = None  # (corrs, method)
        self.extra = {}  # attribute -> sequence
        self.gram_force = None


CORR_KW = [{}, {"method": "direct"}, {"second_order_method": False}, {"method": "fft", "vectorize": True}]


def do_force(est, f):
    if f == "mean":
        est.compute_mean_force()
    else:
        est.set_zero_force()


def fresh(r, history):
    """New estimator on new copies of the data, after the given calls only."""
    est = ref.estimator(r)
    for op in history:
        apply(est, op, None)
    return est


def apply(est, op, r):
    k = op[0]
    if k == "force":
        do_force(est, op[1])
    elif k == "corrs":
        est.compute_corrs(**CORR_KW[op[1]], **({} if len(op) < 3 or op[2] is None else {"rank_tol": op[2]}))
    elif k == "kernel":
        K, D = est.bkbkcorrw.sizes["dim_basis"], est.bkdxcorrw.shape[1]
        kw = {} if len(op) < 3 or not op[2] or op[1] not in GIVEN else {"k0": rng_of(op[2], 28).normal(size=(K, D))}
        est.compute_kernel(method=op[1], **kw)
    elif k == "gram_force":
        est.compute_gram_force()
    elif k == "gram_kernel":
        est.compute_gram_kernel()
    elif k == "eff_mass":
        est.compute_effective_mass()
    elif k == "pos_mass":
        est.compute_pos_effective_mass()


def check(case):
    r = ref.Ref(case)
    if not r.healthy():
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    ds = ref.trajs(r)
    snap = snap_data(ds)
    est = ref.estimator(r, ds=ds)
    other = ref.estimator(r, ds=ds, basis=ref.new_basis(case))  # a second estimator on the same trajectories
    labels = []
    force = corrs = kernel = None  # histories (lists of ops) behind what is stored
    extra = {}
    gram = None
    done = 0

    def tolerance(j):
        """A tolerance on the rank that leaves out some directions, far from the singular values."""
        if not r.rank_projection or j == 0:
            return None
        B = fresh(r, [["force", "mean"], ["corrs", 0]]).bkbkcorrw.isel(time_trunc=0)
        s = np.linalg.svd(as_np(B), compute_uv=False)
        gaps = [np.sqrt(p * q) for p, q in zip(s[:-1], s[1:]) if p > 1.5 * q and q > 1e-8 * s[0]]
        return float(gaps[(j - 1) % len(gaps)]) if gaps else None

    def ranks_agree():
        P, ker = est.model.P_range, est.model.kernel
        return P is None or ker is None or P.sizes["dim_basis"] == ker.sizes["dim_basis"]

    def expected():
        h = {}
        # gram of the force is left by the force regression or by its own call
        e = fresh(r, force or [])
        h["force_coeff"] = e.model.force_coeff
        h["gram_force"] = None if gram is None else fresh(r, gram).model.gram_force
        e = fresh(r, corrs or [])
        h["P_range"] = e.model.P_range
        for c in CORRS:
            h[c] = getattr(e, c, None)
        e = fresh(r, kernel or [])
        h["kernel"] = e.model.kernel
        h["method"] = e.model.method
        for k in ("gram_kernel", "eff_mass", "inv_mass_coeff"):
            h[k] = getattr(fresh(r, extra[k]).model, k) if k in extra else None
        h["rank_projection"] = bool(r.rank_projection)
        return h

    for op in case["ops"]:
        k = op[0]
        if k == "corrs" and force is None:
            continue
        if k == "corrs":
            op = [k, op[1], tolerance(op[2])]
            if op[2] is not None:
                labels.append("rank_tol")
        if k in ("noise", "projected", "save", "eval", "check") and not ranks_agree():
            continue
        if k == "kernel":
            if corrs is None:
                continue
            if CORR_KW[corrs[-1][1]].get("second_order_method") is False and op[1].startswith("second"):
                continue
        if k == "gram_kernel" and (r.rank_projection and corrs is None):
            continue
        if k in ("gram_kernel", "pos_mass") and r.model not in ref.VEL and r.dim > 1:
            continue  # not meaningful
        if k in ("gram_kernel", "pos_mass") and r.model in ref.VEL and r.dim > 1:
            continue
        if k == "pos_mass" and (r.rank_projection or r.model in ("Pos_gle_const_kernel", "Pos_gle_hybrid")):
            continue
        if k == "gram_kernel" and r.model == "Pos_gle_hybrid":
            continue
        if k in ("noise", "projected", "check", "laplace") and kernel is None:
            continue
        if k in ("noise", "projected") and as_np(est.model.kernel).size and est.model.method.startswith("midpoint"):
            continue
        if k == "check" and est.bkdxcorrw.shape[-1] < len(est.model.kernel):
            continue
        if k == "save" and r.model not in gen.MODELS:
            continue
        if k == "other":
            other.compute_mean_force()
            other.compute_corrs()
            other.compute_kernel(method=op[1])
        elif k == "eval":
            if est.model.force_coeff is None:
                continue
            pts = np.linspace(-1, 1, 3 * r.dim).reshape(-1, r.dim)
            if r.model != "Pos_gle_with_friction":
                est.model.force_eval(pts)
            else:
                est.model.friction_force_eval(pts)
            if kernel is not None:
                est.model.kernel_eval(pts)
        elif k == "noise":
            a = est.model.compute_noise(ds[0])
            b = fresh_chain(r, force, corrs, kernel).model.compute_noise(ref.trajs(r)[0])
            for u, v, w in zip(a, b, ("time", "noise", "observable", "force", "memory")):
                u, v = as_np(u), as_np(v)
                close(u, v, w, rtol=1e-6, scale=max(np.abs(np.nan_to_num(as_np(q))).max() for q in b[1:]))
        elif k == "projected":
            a = est.compute_projected_corrs()
            b = fresh_chain(r, force, corrs, kernel).compute_projected_corrs()
            for u, v in zip(a, b):
                close(u, v, "projected correlation", rtol=1e-6)
        elif k == "check":
            est.check_volterra_inversion(return_diff=op[1])
        elif k == "laplace":
            if len(est.model.kernel) > 2:
                est.model.laplace_transform_kernel(n_points=3)
        elif k == "save":
            est.model.save_model()
        elif k == "describe":
            est.describe_data()
            est.compute_basis_mean()
        else:
            apply(est, op, r)
            if k == "force":
                force = [op]
                if op[1] == "mean":
                    gram = [op]
            elif k == "corrs":
                corrs = list(force) + [op]
            elif k == "kernel":
                kernel = list(corrs) + [op]
            elif k == "gram_force":
                gram = [op]
            elif k == "gram_kernel":
                extra["gram_kernel"] = (list(corrs) if r.rank_projection else []) + [op]
            elif k == "eff_mass":
                extra["eff_mass"] = [op]
            elif k == "pos_mass":
                extra["inv_mass_coeff"] = [op]
        done += 1
        labels.append(k)
        same_data(ds, snap)
    want = expected()
    for k in MODEL_KEYS:
        cmp(getattr(est.model, k), want[k], k)
    for c in CORRS:
        if corrs is not None:
            cmp(getattr(est, c), want[c], c)
    require(int(est.model.trunc_ind) == r.trunc_ind(), "the truncation has changed to %s", est.model.trunc_ind)
    require(est.model.dt == r.dt and est.model.dim_x == r.dim, "time step or dimension of the model have changed")
    labels.append(r.model)
    nforce = sum(1 for o in case["ops"] if o[0] in ("force", "corrs", "kernel"))
    return {"nontrivial": done >= 4 and nforce >= 3, "labels": labels}


def fresh_chain(r, force, corrs, kernel):
    """Force, correlations and kernel as they are stored now: they may come from different moments."""
    e = fresh(r, kernel)
    c = fresh(r, corrs)
    e.model.P_range = c.model.P_range
    e.model.force_coeff = fresh(r, force).model.force_coeff
    return e


OPS = st.one_of(
    st.tuples(st.just("force"), st.sampled_from(["mean", "mean", "zero"])),
    st.tuples(st.just("corrs"), st.integers(0, 3), st.sampled_from([0, 0, 1, 2])),
    st.tuples(st.just("kernel"), st.sampled_from(METHODS)),
    st.tuples(st.just("kernel"), st.sampled_from(METHODS), st.sampled_from([0, 0, 1, 2])),
    st.tuples(st.sampled_from(["gram_force", "gram_kernel", "eff_mass", "pos_mass", "describe", "save", "eval", "noise", "projected", "laplace"])),
    st.tuples(st.just("check"), st.booleans()),
    st.tuples(st.just("other"), st.sampled_from(METHODS[:4])),
).map(list)


@st.composite
def cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2), min_len=40, max_len=90, max_trajs=2))
    c["trunc"] = draw(st.integers(6, 14))
    head = [["force", "mean"], ["corrs", 0, draw(st.sampled_from([0, 0, 1]))], ["kernel", draw(st.sampled_from(METHODS))]] if draw(st.booleans()) else []
    c["ops"] = head + draw(st.lists(OPS, min_size=3, max_size=10))
    if draw(st.integers(0, 3)) == 0:  # the same method again, with another force, other correlations or another initial value
        m = draw(st.sampled_from(METHODS + GIVEN))
        c["ops"] += [["force", draw(st.sampled_from(["mean", "zero"]))], ["corrs", 0, 0], ["kernel", m, draw(st.sampled_from([0, 1]))]]
        c["ops"] += draw(st.lists(OPS, max_size=2))
        c["ops"] += draw(st.sampled_from([[], [["force", "mean"]], [["force", "zero"], ["corrs", 0, 0]], [["force", "mean"], ["corrs", 1, 1]]]))
        c["ops"] += [["kernel", m]]
    return c


PROPERTY = Property(
    "C28",
    "random sequences of calls on one estimator (mean or zero force, correlations with their options, kernels of every method, Gram matrices, masses, evaluations, noises, saves, a second estimator at work on the same trajectories), each stored result compared at the end with that of a new estimator that was only asked what this result needs, and the trajectories compared with a copy after every call. Non-trivial: four calls or more, three of them changing force, correlations or kernel.",
    [SubCheck("history", cases, check, 500)],
    assumptions=["a later call to compute_mean_force does not recompute the correlations: each result is that of the moment it was asked for"],
)
