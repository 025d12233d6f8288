"""Reference computations for the estimators: plain numpy, pooled over the trajectories."""
import contextlib

import numpy as np
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from . import gen
from .core import as_np, rng_of

VEL = ("Pos_gle", "Pos_gle_with_friction")
LOBS = {"Pos_gle": "a", "Pos_gle_with_friction": "a", "Pos_gle_no_vel_basis": "v", "Pos_gle_const_kernel": "a", "Pos_gle_hybrid": "a", "Pos_gle_overdamped": "v"}


@st.composite
def est_case(draw, dims=(1, 2), models=tuple(gen.MODELS), full_rank=False, min_len=40, max_len=160, max_trajs=3, obs=True, antider=False, huge=False):
    c = draw(gen.model_basis(dims=dims, models=models, full_rank=full_rank, antider=antider))
    c["traj"] = draw(gen.traj_spec(dim=c["dim"], min_len=min_len, max_len=max_len, max_trajs=max_trajs, kinds=("noise", "ar")))
    c["traj"]["t0"] = draw(st.sampled_from([0, 0, 0, 1, 12, 40, -7, 3000]))
    c["trunc"] = draw(st.integers(4, 30))
    if draw(st.integers(0, 5)) == 3:
        c["traj"]["dt"] = draw(st.sampled_from([0.00123, 1 / 3, 2.5e-4, 20.0]))
    # now and then sizes that small examples do not reach: many trajectories, long ones, a long memory
    size = draw(st.sampled_from(["small"] * 20 + ["many", "long", "memory", "round"] + ["huge"] * huge))
    if size == "many" and max_trajs > 1:
        k = draw(st.integers(5, 28))
        c["traj"]["lens"] = draw(st.lists(st.integers(min_len, min_len + 40), min_size=k, max_size=k))
        if min_len <= 30 and draw(st.booleans()):  # the shortest, wherever it is, limits the memory
            c["trunc"] = draw(st.integers(min_len - 2, min_len + 20))
    elif size == "long":
        c["traj"]["lens"] = draw(st.lists(st.integers(300, 1500), min_size=1, max_size=min(3, max_trajs)))
    elif size == "huge":
        c["traj"]["lens"] = draw(st.lists(st.one_of(st.integers(2000, 13000), st.integers(33000, 40000)), min_size=1, max_size=min(2, max_trajs)))
    elif size == "memory":
        c["traj"]["lens"] = draw(st.lists(st.integers(150, 320), min_size=1, max_size=min(2, max_trajs)))
        c["trunc"] = draw(st.integers(60, 140))
    elif size == "round":  # lengths that are powers of two
        c["traj"]["lens"] = draw(st.lists(st.sampled_from([64, 128, 256, 512, 1024]), min_size=1, max_size=min(2, max_trajs)))
    elif min_len <= 30 and len(c["traj"]["lens"]) > 1 and draw(st.integers(0, 7)) == 3:  # about as long as the shortest
        c["trunc"] = max(4, min(c["traj"]["lens"]) + draw(st.integers(-3, 12)))
    # an observable of its own, or the one of the model
    c["obs"] = draw(st.sampled_from([0, 0, 0, 1, 2])) if obs and c["model"] != "Pos_gle_const_kernel" else 0
    return c


def new_basis(case):
    """Fresh basis, not fitted, as a user would pass it."""
    return gen.build(case["basis"])


class Ref:
    """Everything the estimator should find, from the arrays of the trajectories."""

    def __init__(self, case):
        self.case = case
        self.model = case["model"]
        self.dim = case["dim"]
        self.dt = case["traj"]["dt"]
        self.arrays = gen.make_arrays(case["traj"])
        self.lens = [a[0].shape[0] for a in self.arrays]
        self.tot = sum(self.lens)
        xs = np.concatenate([a[0] for a in self.arrays])
        self.xs = xs
        b = gen.build(case["basis"])
        b.fit(bf.DescribeResult(len(xs), (xs.min(axis=0), xs.max(axis=0)), xs.mean(axis=0), np.zeros(self.dim), np.zeros(self.dim), np.zeros(self.dim)))
        if self.model not in VEL:
            b.const_removed = False
        self.basis = b
        self.N = gen.n_features(case["basis"], self.dim)
        self.rc = bool(b.const_removed)
        self.rank_projection = self.model == "Pos_gle" and not self.rc or self.model == "Pos_gle_with_friction" and not self.rc
        self.lobs = LOBS[self.model]
        self.obs = None
        if case.get("obs"):
            rng = rng_of(case["traj"]["seed"], 991)
            self.obs = [np.stack([x[:, 0] ** 2 - v[:, 0] + 0.3 * rng.normal(size=len(x)) for _ in range(case["obs"])], axis=1) for x, v, a in self.arrays]
            self.lobs = "obs"

    def L(self, i):
        x, v, a = self.arrays[i]
        return {"a": a, "v": v}[self.lobs] if self.obs is None else self.obs[i]

    # regressors -------------------------------------------------------------
    def regressors(self, x, v, a):
        b, m = self.basis, self.model
        bk = b.basis(x)
        if m == "Pos_gle_const_kernel":
            return bk, v, a
        D = b.deriv(x)
        Ev = np.einsum("nkd,nd->nk", D, v)
        if m in VEL:
            H = b.hessian(x)
            dE = np.einsum("nkd,nd->nk", D, a) + np.einsum("nkde,nd,ne->nk", H, v, v)
            return (bk, Ev, dE) if m == "Pos_gle" else (np.concatenate((bk, Ev), axis=1), Ev, dE)
        if m == "Pos_gle_hybrid":
            return bk, np.concatenate((v, bk), axis=1), np.concatenate((a, Ev), axis=1)
        return bk, bk, Ev

    def kernel_basis(self, x):
        """(n, K, dim): what multiplies the velocity in the memory term."""
        m = self.model
        if m in VEL:
            return self.basis.deriv(x)
        if m == "Pos_gle_const_kernel":
            return np.repeat(np.eye(self.dim)[None], len(x), axis=0)
        bk = self.basis.basis(x)
        return np.repeat(bk[:, :, None], self.dim, axis=2)

    # static averages ----------------------------------------------------------
    def force(self):
        EF = np.concatenate([self.regressors(*a)[0] for a in self.arrays])
        L = np.concatenate([self.L(i) for i in range(len(self.arrays))])
        G = EF.T @ EF / self.tot
        d = EF.T @ L / self.tot
        self.gram, self.disp, self.EF, self.Lall = G, d, EF, L
        self.cond = np.linalg.cond(G)
        return np.linalg.solve(G, d) if self.cond < 1e13 else np.full_like(d, np.nan)

    # correlations ---------------------------------------------------------------
    def trunc_ind(self, trunc=None):
        tr = self.case["trunc"] * self.dt if trunc is None else trunc
        return min(min(self.lens), int(np.floor(tr / self.dt + 1e-6)) + 1)

    def correlations(self, f, n):
        """B[k',k,n], DxB[k,d,n], and the same with the time derivative of the basis on the left."""
        res = [0.0] * 4
        for i, arr in enumerate(self.arrays):
            EF, E, dE = self.regressors(*arr)
            dx = self.L(i) - EF @ f
            w = self.lens[i] / self.tot
            for q, (p, r) in enumerate(((E, E), (E, dx), (dE, E), (dE, dx))):
                res[q] = res[q] + w * corr_nd(p, r, n)
        return res

    def healthy(self, method=None, limit=1e6):
        """The matrices that the estimation has to invert are well conditioned (reference computation only)."""
        f = self.force()
        if not np.isfinite(self.cond) or self.cond > max(limit, 1e8):
            return False
        B, X, dB, dX = self.correlations(f, max(4, min(self.trunc_ind(), 4)))
        ev, U = np.linalg.eigh(B[:, :, 0])
        top = np.abs(ev).max()
        if top < 1e-12:
            return False
        if self.rank_projection:
            keep = ev > 1e-13 * top
            if np.any(keep & (ev < top / limit)):
                return False
            P = U[:, keep].T
            B = np.einsum("ab,bcn,dc->adn", P, B, P)
            dB = np.einsum("ab,bcn,dc->adn", P, dB, P)
        elif ev.min() < top / limit:
            return False
        mats = [B[:, :, 0]]
        if method is None or method in ("rect", "rectangular", "midpoint", "midpoint_w_richardson"):
            mats.append(B[:, :, 1])
        if method == "midpoint_w_richardson":
            mats.append(B[:, :, 3])
        if method is None or method == "second_kind_trapz":
            mats.append(B[:, :, 0] - 0.5 * self.dt * dB[:, :, 0])
        return all(np.linalg.cond(m) < limit and np.abs(m).max() > 1e-9 * top for m in mats)


def corr_nd(a, b, n):
    T = len(a)
    return np.stack([a[: T - m].T @ b[m:] / (T - m) for m in range(n)], axis=-1)


def trajs(ref, dask=False):
    ds = gen.make_trajs(ref.case["traj"], dask=dask, arrays=ref.arrays)
    if ref.obs is not None:
        for d, o in zip(ds, ref.obs):
            if dask:
                import dask.array as da

                d["obs"] = (("time", "dim_o"), da.from_array(o, chunks=(max(3, len(o) // 3), -1)))
            else:
                d["obs"] = (("time", "dim_o"), o.copy())
    return ds


def estimator(ref, ds=None, dask=False, n_jobs=1, basis=None, trunc=None, **kw):
    case = ref.case
    ds = trajs(ref, dask) if ds is None else ds
    kw.setdefault("saveall", False)
    kw.setdefault("verbose", bool(case["traj"]["seed"] % 2))  # what is printed changes nothing
    if ref.obs is not None:
        kw["L_obs"] = "obs"
    # half a step after the last wanted frame: no rounding ambiguity
    tr = (case["trunc"] + 0.5) * ref.dt if trunc is None else trunc
    return vb.Estimator_gle(ds, gen.MODELS[case["model"]], basis if basis is not None else new_basis(case), trunc=tr, n_jobs=n_jobs, **kw)


@contextlib.contextmanager
def threads():
    import joblib

    with joblib.parallel_config(backend="threading"):
        yield


def dims_last(da, *dims):
    """numpy array with the dimensions in the given order."""
    return as_np(da.transpose(*dims))
