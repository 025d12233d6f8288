"""C31: the regressors of a model are one function of the trajectory and its exact time derivative."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen, ref
from ..core import Property, SubCheck, as_np, close, require, rng_of


def path(case, t):
    """x, v, a at times t on a smooth path staying in (-1.5, 1.5)"""
    rng = rng_of(case["seed"], 40)
    x, v, a = (np.zeros((len(t), case["dim"])) for _ in range(3))
    for d in range(case["dim"]):
        for A in (0.7, 0.5):
            w, p = rng.uniform(0.4, 1.6), rng.uniform(0, 6.28)
            x[:, d] += A * np.sin(w * t + p)
            v[:, d] += A * w * np.cos(w * t + p)
            a[:, d] += -A * w * w * np.sin(w * t + p)
    return x, v, a


def dataset(case, t):
    x, v, a = path(case, t)
    ds = vb.xframe(x, t, v=v, a=a)
    if case["lobs"]:  # the observable is none of the variables the regressors are made of
        ds["w"] = (("time", "dim_x"), 3.0 * a * x + 1.0)
    if case["dask"]:
        ds = ds.chunk({"time": 7})
    return ds


def check(case):
    dim, name = case["dim"], case["model"]
    lo, hi = -1.5 * np.ones(dim), 1.5 * np.ones(dim)
    fit = np.stack((lo, hi))
    m = gen.MODELS[name](gen.build(case["basis"]), 0.01, dim_x=dim, dim_obs=dim, **({"L_obs": "w"} if case["lobs"] else {}), describe_data=bf.DescribeResult(2, (lo, hi), 0.1 * np.ones(dim), np.ones(dim), np.zeros(dim), np.zeros(dim)))
    T = np.sort(rng_of(case["seed"], 41).uniform(0, 20, size=12))
    T[1] = T[0] + 0.5 if T[1] - T[0] < 1e-9 else T[1]
    h = 1e-4
    grids = [T + k * h for k in (-2, -1, 0, 1, 2)]
    R = [m.basis_vector(dataset(case, g)) for g in grids]
    F, E, dE = R[2]
    E0, dE0 = (q.transpose("time", "dim_basis") for q in (E, dE))
    N = gen.n_features(case["basis"], dim)
    rc = int(bool(m.basis.const_removed)) * dim if name in ref.VEL else 0
    K = {"Pos_gle": N - rc, "Pos_gle_with_friction": N - rc, "Pos_gle_const_kernel": dim, "Pos_gle_hybrid": N + 1}.get(name, N)
    NF = 2 * N - rc if name == "Pos_gle_with_friction" else N
    require(E0.shape == (12, K) and dE0.shape == (12, K), "regressors of the memory of shapes %s and %s for %d functions", E0.shape, dE0.shape, K)
    require(F.transpose("time", "dim_basis").shape == (12, NF), "regressors of the force of shape %s for %d functions", F.shape, NF)
    require(int(m.N_basis_elt_kernel) == K and int(m.N_basis_elt_force) == NF, "the model announces %s and %s functions for %d and %d", m.N_basis_elt_kernel, m.N_basis_elt_force, K, NF)
    S = [as_np(q[1].transpose("time", "dim_basis")) for q in R]
    fd = (8 * (S[3] - S[1]) - (S[4] - S[0])) / (12 * h)
    fd2 = (S[3] - S[1]) / (2 * h)
    # frames where the functions are not smooth are left out
    x, v, a = path(case, T)
    far = np.ones(12, dtype=bool)
    for d in range(dim):
        if case["basis"]["kind"] == "tensor":
            sp = case["basis"]["b1"] if d == 0 or case["basis"].get("b2") is None else case["basis"]["b2"]
        else:
            sp = case["basis"]
        bp = gen.breakpoints(sp, -1.5, 1.5)
        if len(bp):
            far &= np.min(np.abs(x[:, d : d + 1] - bp), axis=1) > 6e-3
    scale = max(np.abs(as_np(dE0)).max(), np.abs(as_np(E0)).max(), 1e-3)
    err = np.abs(fd - fd2).max(axis=1)
    good = far & (err < 1e-3 * scale)
    if np.any(good):
        close(as_np(dE0)[good], fd[good], "time derivative of the regressors", rtol=2e-6, scale=scale)
    # consistency of the different goals
    ds = dataset(case, T)
    G = m.basis_vector(ds, compute_for="force").transpose("time", "dim_basis")
    close(G, F.transpose("time", "dim_basis"), "regressors of the force", rtol=1e-12)
    if name in ref.VEL:
        k = m.basis_vector(ds, compute_for="kernel").transpose("time", "dim_basis", "dim_x")
        require(k.shape == (12, K, dim), "kernel basis of shape %s", k.shape)
        close(np.einsum("nkd,nd->nk", as_np(k), v), as_np(E0), "kernel basis times velocity", rtol=1e-10, scale=scale)
    elif name == "Pos_gle_const_kernel":
        close(as_np(E0), v, "velocity", rtol=1e-13)
        close(as_np(dE0), a, "acceleration", rtol=1e-13)
    elif name == "Pos_gle_hybrid":
        close(as_np(E0)[:, 1:], as_np(G), "position dependent part", rtol=1e-13)
        close(as_np(E0)[:, :1], v, "velocity part", rtol=1e-13)
    else:
        close(as_np(E0), as_np(G), "regressors of force and memory", rtol=1e-13)
    if name == "Pos_gle_with_friction":
        close(as_np(G)[:, N:], as_np(E0), "friction part of the regressors", rtol=1e-12)
    # frame by frame: a frame does not depend on the others
    sel = ds.isel(time=slice(3, 9))
    for q, p in zip(m.basis_vector(sel), (F, E, dE)):
        close(q.transpose("time", "dim_basis"), as_np(p.transpose("time", "dim_basis"))[3:9], "part of the trajectory", rtol=1e-11, scale=np.abs(as_np(p)).max() + 1e-300)
    # the derivative does not know the rest of the dataset, nor is the input changed
    x2, v2, a2 = path(case, T)
    require(np.array_equal(as_np(ds["x"]), x2) and np.array_equal(as_np(ds["v"]), v2) and np.array_equal(as_np(ds["a"]), a2), "the trajectory has been modified")
    return {"nontrivial": bool(np.sum(good) >= 4) and K > 1, "labels": [name, case["basis"]["kind"], "dim%d" % dim, "dask" if case["dask"] else "numpy", "other observable" if case["lobs"] else "usual observable"]}


@st.composite
def cases(draw):
    c = draw(gen.model_basis(dims=(1, 2, 2, 3)))
    if c["dim"] > 1 and c["basis"]["kind"] != "tensor" and draw(st.booleans()):
        rc = True if c["model"] == "Pos_gle_with_friction" else None
        c["basis"] = draw(gen.basis_nd_spec(rc=rc) if rc is None else st.one_of(gen.poly_spec(max_deg=4, rc=True), gen.fourier_spec(max_order=3, rc=True)))
    if c["basis"]["kind"] == "splinefct" and c["basis"]["k"] < 2:
        c["basis"]["k"] = 2  # a linear spline has no second derivatives, which the velocity models need
    c["seed"] = draw(gen.seeds)
    c["lobs"] = draw(st.booleans())
    c["dask"] = draw(st.sampled_from([False, False, True])) and c["basis"]["kind"] != "tensor" and c["model"] != "Pos_gle_with_friction"
    return c


PROPERTY = Property(
    "C31",
    "every model and basis in 1 to 3 dimensions on smooth paths with their exact velocity and acceleration: the third regressor is compared with the numerical time derivative of the second, shapes with the announced numbers of functions, and the regressors for force, kernel and correlations with one another, on whole and partial, plain and lazy trajectories. Non-trivial: four smooth frames or more, more than one function.",
    [SubCheck("chain", cases, check, 400)],
    assumptions=["frames within 0.006 of a knot are left out"],
)
