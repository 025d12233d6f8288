"""C25: Integrator_gle integrates the generalised Langevin equation of the model."""
import numpy as np
import scipy.linalg
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen
from ..core import Property, SubCheck, as_np, close, require, rng_of
from .c23 import Draws


def fitted(spec, dim):
    fit = np.array([[-4.0] * dim, [4.0] * dim])
    return gen.build(spec).fit(fit)


class Problem:
    def __init__(self, case):
        rng = rng_of(case["seed"], 250)
        self.dim, self.dt = case["dim"], case["dt"]
        self.basis = fitted(case["basis"], self.dim)
        self.const = case["const"]
        x = rng.normal(size=(1, self.dim))
        self.K = self.dim if self.const else self.basis.deriv(x).shape[1]
        self.f = 0.7 * rng.normal(size=(self.basis.basis(x).shape[1], self.dim))
        L = case["L"]
        self.ker = rng.normal(size=(L, self.K, self.dim)) * np.exp(-np.arange(L) / max(2.0, L / 3.0))[:, None, None]
        self.P = None
        if case["project"] and self.K > 1:
            q = np.linalg.qr(rng.normal(size=(self.K, self.K)))[0][: self.K - 1]
            self.P = q
            self.ker = self.ker[:, : self.K - 1]
        self.C = np.zeros((self.ker.shape[1], self.dim))
        self.C[: self.dim, : self.dim] = np.eye(min(self.dim, len(self.C)), self.dim)
        self.C = self.C + 0.2 * rng.normal(size=self.C.shape)

    def integrator(self, case, rng=None):
        kw = {} if rng is None else {"rng": rng}
        cls = vb.Integrator_gle_const_kernel if self.const else vb.Integrator_gle
        if case["how"] == "args":
            if case["noise_coeffs"]:
                kw["coeffs_noise_kernel"] = self.C
            ker = self.ker.copy()
            if case.get("flat") and ker.shape[1:] == (1, 1):  # a kernel without components
                ker = ker[:, 0, 0]
            return cls(None, verbose=bool(case["seed"] % 2), basis=self.basis, force_coeff=self.f.copy(), kernel=ker, dt=self.dt, **kw)
        mcls = vb.Pos_gle_const_kernel if self.const else vb.Pos_gle
        m = mcls(self.basis, self.dt, dim_x=self.dim, dim_obs=self.dim, trunc_ind=len(self.ker))
        m.force_coeff = xr.DataArray(self.f.copy(), dims=("dim_basis", "dim_x"))
        m.kernel = xr.DataArray(self.ker.copy(), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(len(self.ker)) * self.dt})
        m.inv_mass_coeff = xr.DataArray(self.C.copy(), dims=("dim_basis", "dim_x'"))
        m.rank_projection = False
        if self.P is not None:
            m.rank_projection = True
            m.P_range = xr.DataArray(self.P.copy(), dims=["dim_basis", "dim_basis_old"])
        if case["noise_coeffs"]:
            m.inv_mass_coeff = None
            kw["coeffs_noise_kernel"] = self.C.copy()
        if case["trunc"] is not None:
            kw["trunc_kernel"] = case["trunc"]
        return cls(m, verbose=bool(case["seed"] % 2), **kw)

    def used_kernel(self, case):
        if case["how"] == "model" and case["trunc"] is not None:
            return self.ker[: case["trunc"]]
        return self.ker

    def noise_kernel(self, case):
        k = self.used_kernel(case)
        if case["how"] == "args" and not case["noise_coeffs"]:
            return k
        return np.einsum("kl,ikd->ild", self.C, k)

    def E(self, x, v):
        if self.const:
            e = v
        else:
            e = np.einsum("ld,d->l", self.basis.deriv(x[None])[0], v)
        return e if self.P is None else self.P @ e

    def force(self, x):
        return self.basis.basis(x[None])[0] @ self.f


def simulate(p, ker, x0, v0, n, noise):
    """The scheme: trapezoidal memory at both ends of the step, interpolated in a fourth order Runge-Kutta step."""
    dt, L = p.dt, len(ker) - 1
    X, V = [np.array(a) for a in x0], [np.array(a) for a in v0]
    E = [p.E(a, b) for a, b in zip(X, V)]

    def past(i):
        """memory at frame i without its instantaneous part"""
        m = np.zeros(ker.shape[2])
        last = min(i, L)
        for j in range(1, last + 1):
            m = m + (0.5 if j == last else 1.0) * dt * E[i - j] @ ker[j]
        return m

    for i in range(len(X), n):
        old, new = past(i - 1), past(i)
        start = old + 0.5 * dt * E[i - 1] @ ker[0]

        def acc(x, v, w):
            end = new + 0.5 * dt * p.E(x, v) @ ker[0]
            return p.force(x) + noise[i] - (1 - w) * start - w * end

        x, v = X[-1], V[-1]
        k1 = acc(x, v, 0.0)
        v2 = v + 0.5 * dt * k1
        k2 = acc(x + 0.5 * dt * v, v2, 0.5)
        v3 = v + 0.5 * dt * k2
        k3 = acc(x + 0.5 * dt * v2, v3, 0.5)
        v4 = v + dt * k3
        k4 = acc(x + dt * v3, v4, 1.0)
        X.append(x + dt * (v + 2 * v2 + 2 * v3 + v4) / 6)
        V.append(v + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6)
        E.append(p.E(X[-1], V[-1]))
    return np.array(X), np.array(V)


def history(x, v, dt):
    return xr.Dataset({"x": (["time", "dim_x"], x.copy()), "v": (["time", "dim_x"], v.copy())}, coords={"time": np.arange(len(x)) * dt}, attrs={"dt": dt})


def check(case):
    p = Problem(case)
    rng = rng_of(case["seed"], 251)
    n, dim, dt = case["n"], case["dim"], case["dt"]
    n0 = min(case["n0"], n)
    if case["start"]:
        xs = np.cumsum(0.05 * rng.normal(size=(n0, dim)), axis=0) + 0.5 * rng.normal(size=dim)
        vs = 0.6 * rng.normal(size=(n0, dim))
    else:
        n0, xs, vs = 1, np.zeros((1, dim)), np.zeros((1, dim))
    ker = p.used_kernel(case)
    seed = case["seed"]
    noise = np.zeros((n, dim))
    if case["noise"]:
        import VolterraBasis.gle_integrate as gi

        noise = gi.ColoredNoiseGenerator(p.noise_kernel(case), np.arange(len(ker)) * dt, rng=rng_of(seed, 252).normal).generate(n)
    it = p.integrator(case, rng=rng_of(seed, 252).normal)
    x0 = history(xs, vs, dt) if case["start"] else None
    keep = None if x0 is None else x0.copy(deep=True)
    trj = it.run(n, x0, set_noise_to_zero=not case["noise"])
    require(x0 is None or x0.identical(keep), "the initial condition has been modified")
    WX, WV = simulate(p, ker, xs, vs, n, noise)
    labels = [case["how"], "const" if p.const else "vel", "dim%d" % dim, "noise" if case["noise"] else "quiet", "history" if n0 > 1 else "point", "projected" if p.P is not None else "plain", "long" if n > len(ker) else "short"]
    out = np.abs(WX).max() > 3.5
    if out or not np.all(np.isfinite(WV)) or np.abs(WV).max() > 1e3:
        return {"nontrivial": False, "labels": ["leaves the range"]}
    sc = max(1.0, np.abs(WV).max(), np.abs(WX).max())
    close(trj["x"], WX, "positions", rtol=1e-9, scale=sc)
    close(trj["v"], WV, "velocities", rtol=1e-9, scale=sc / min(1.0, dt))
    tt = as_np(trj["time"])
    require(tt.shape == (n,), "time of shape %s", tt.shape)
    close(np.diff(tt), np.full(n - 1, dt), "time step of the trajectory", rtol=1e-7)
    require(abs(trj.attrs["dt"] - dt) < 1e-12, "dt")
    if not case["noise"] and n - n0 > 2:
        # continued from its own first frames, the trajectory is the same
        cut = n0 + (n - n0) // 2
        again = it.run(n, history(WX[:cut], WV[:cut], dt), set_noise_to_zero=True)
        close(again["x"], WX, "positions of the trajectory continued from frame %d" % cut, rtol=1e-9, scale=sc)
        # two runs of the same integrator do not see each other
        again = it.run(n, x0, set_noise_to_zero=True)
        require(np.array_equal(as_np(again["x"]), as_np(trj["x"])), "the second run differs from the first one")
    return {"nontrivial": n > n0 + 2, "labels": labels}


def check_exact(case):
    """linear force and exponential kernel: matrix exponential"""
    rng = rng_of(case["seed"], 253)
    dim = case["dim"]
    A = np.diag(rng.uniform(0.5, 2.0, size=dim)) + 0.2 * rng.normal(size=(dim, dim))  # v' = - x A - w
    M = np.diag(rng.uniform(0.3, 1.5, size=dim)) + 0.2 * rng.normal(size=(dim, dim))  # w' = v M - w / tau
    tau = rng.uniform(0.4, 1.5)
    x0, v0 = rng.normal(size=dim), rng.normal(size=dim)
    T = 3.0
    Z, I = np.zeros((dim, dim)), np.eye(dim)
    # row vectors (x, v, w)
    gen_ = np.block([[Z, -A, Z], [I, Z, M], [Z, -I, -I / tau]])
    errs = []
    for n in (61, 121):
        dt = T / (n - 1)
        t = np.arange(n) * dt
        ker = M[None] * np.exp(-t / tau)[:, None, None]
        basis = bf.LinearFeatures().fit(np.array([[-1.0] * dim, [1.0] * dim]))
        cls = vb.Integrator_gle_const_kernel if case["const"] else vb.Integrator_gle
        it = cls(None, verbose=False, basis=basis, force_coeff=-A, kernel=ker, dt=dt)
        trj = it.run(n, history(x0[None], v0[None], dt), set_noise_to_zero=True)
        ex = np.stack([np.concatenate((x0, v0, 0 * x0)) @ scipy.linalg.expm(gen_ * s) for s in t])
        errs.append(max(np.abs(as_np(trj["x"]) - ex[:, :dim]).max(), np.abs(as_np(trj["v"]) - ex[:, dim : 2 * dim]).max()))
    sc = max(np.abs(x0).max(), np.abs(v0).max(), 1.0)
    h = T / 60
    require(errs[0] < 1.2 * h**2 * sc, "error %.3g with time step %.3g", errs[0], h)
    require(errs[1] < 0.4 * errs[0] + 2e-2 * h**2 * sc, "the error goes from %.3g to %.3g when the time step is halved", *errs)
    return {"nontrivial": True, "labels": ["dim%d" % dim, "const" if case["const"] else "vel"]}


def check_noise(case):
    """no force and a negligible memory: the velocity increments are the noise, and its covariance that of the kernel"""
    rng = rng_of(case["seed"], 254)
    L, dt, dim = case["L"], case["dt"], case["dim"]
    t = np.arange(L) * dt
    k = np.zeros((L, dim, dim))
    for d in range(dim):
        k[:, d, d] = rng.uniform(0.5, 2.0) * np.exp(-t / (L * dt * rng.uniform(0.05, 0.09)))
    scale = rng.uniform(0.5, 2.0, size=dim)
    eps = 1e-9
    basis = bf.LinearFeatures().fit(np.array([[-1.0] * dim, [1.0] * dim]))
    n = case["n"]
    cols = []
    total = None
    for j in range(-1, 10**6):
        src = Draws(j)
        it = vb.Integrator_gle(None, coeffs_noise_kernel=np.diag(scale) / eps, verbose=False, basis=basis, force_coeff=np.zeros((dim, dim)), kernel=eps * k, dt=dt, rng=src)
        trj = it.run(n)
        if j < 0:
            total = src.count
            require(np.abs(as_np(trj["v"])).max() == 0.0, "motion without noise")
        else:
            cols.append(np.diff(as_np(trj["v"]), axis=0) / dt)
        if j + 1 >= total:
            break
    F = np.stack(cols, axis=-1)
    inner = np.arange(n - 1)
    lag = np.abs(inner[:, None] - inner[None, :])
    for d in range(dim):
        want = np.where(lag < L, (k[:, d, d] * scale[d])[np.minimum(lag, L - 1)], 0.0)
        close(F[inner, d] @ F[inner, d].T, want, "covariance of the random force %d" % d, rtol=0.01, scale=k[0, d, d] * scale[d])
        for e in range(d):
            close(F[:, d] @ F[:, e].T, np.zeros((n - 1, n - 1)), "covariance of the random forces %d and %d" % (d, e), atol=1e-5 * k[0].max())
    return {"nontrivial": len(inner) > 3, "labels": ["dim%d" % dim]}


def check_initial(case):
    rng = rng_of(case["seed"], 255)
    dim, dt = case["dim"], case["dt"]
    xs = [history(100.0 * i + np.cumsum(np.abs(rng.normal(size=(m, dim))) + 0.01, axis=0), rng.normal(size=(m, dim)), dt) for i, m in enumerate(case["lens"])]
    for i, d in enumerate(xs):  # not starting at zero
        d["time"] = d["time"] + 7.0 * (i + 1)
    one = case["one"]
    if one:
        xs = xs[:1]
    basis = bf.LinearFeatures().fit(np.array([[-1.0] * dim, [1.0] * dim]))
    it = vb.Integrator_gle(None, verbose=False, basis=basis, force_coeff=np.zeros((dim, dim)), kernel=np.ones((4, dim, dim)), dt=dt)
    keep = [d.copy(deep=True) for d in xs]
    seen = set()
    np.random.seed(case["seed"] % (2**32))
    for _ in range(case["tries"]):
        n_mem = case["n_mem"]
        s = it.initial_conditions(xs[0] if one else xs, n_mem=n_mem) if n_mem or case["explicit"] else it.initial_conditions(xs[0] if one else xs)
        x, v = as_np(s["x"]), as_np(s["v"])
        require(x.shape == (n_mem + 1, dim), "%s frames drawn, %d asked", x.shape, n_mem + 1)
        close(s["time"], np.arange(n_mem + 1) * dt, "times of the initial condition", rtol=1e-12)
        hit = None
        for i, d in enumerate(xs):
            w = np.where(np.all(as_np(d["x"]) == x[0], axis=1))[0]
            if len(w):
                hit = (i, int(w[0]))
        require(hit is not None, "the initial condition is not a frame of the trajectories")
        i, a = hit
        require(np.array_equal(as_np(xs[i]["x"])[a : a + n_mem + 1], x) and np.array_equal(as_np(xs[i]["v"])[a : a + n_mem + 1], v), "the initial condition is not %d consecutive frames of trajectory %d", n_mem + 1, i)
        seen.add(hit)
    require(all(d.identical(k) for d, k in zip(xs, keep)), "a trajectory has been modified")
    pool = [d.sizes["time"] - case["n_mem"] for d in xs]
    if case["tries"] > 40 * len(pool) * max(pool):  # the probability to miss one by chance is below 1e-15
        require(len(seen) == sum(pool), "%d draws give %d of the %d possible initial conditions", case["tries"], len(seen), sum(pool))
    if case["tries"] >= 30 and sum(pool) > 6:
        require(len(seen) > 1, "the same initial condition is drawn %d times", case["tries"])
    return {"nontrivial": case["n_mem"] > 0 or len(xs) > 1, "labels": ["one" if one else "list", "memory" if case["n_mem"] else "point"]}


@st.composite
def cases(draw):
    const = draw(st.booleans())
    dim = draw(st.sampled_from([1, 1, 2, 3]))
    if dim == 1:
        basis = draw(st.one_of(gen.linear_spec(), gen.poly_spec(max_deg=3, fams=["Polynomial", "Chebyshev", "HermiteE"]), gen.fourier_spec(max_order=2), gen.bspline_spec(kmax=3, periodic=False)))
    else:
        basis = draw(st.one_of(gen.linear_spec(), gen.poly_spec(max_deg=2, fams=["Polynomial", "HermiteE"]), gen.fourier_spec(max_order=2)))
    how = draw(st.sampled_from(["model", "model", "args"]))
    L = draw(st.integers(3, 14))
    n = draw(st.integers(2, 30))
    if draw(st.integers(0, 50)) == 17:  # a long memory
        L, n = draw(st.integers(250, 320)), draw(st.integers(260, 340))
    return {
        "dim": dim,
        "const": const,
        "basis": basis,
        "how": how,
        "L": L,
        "trunc": draw(st.one_of(st.none(), st.integers(3, L))),
        "project": how == "model" and draw(st.booleans()),
        "noise": draw(st.booleans()),
        "noise_coeffs": draw(st.booleans()),
        "flat": draw(st.booleans()),
        "start": draw(st.sampled_from([True, True, False])),
        "n0": draw(st.sampled_from([1, 1, 2, 3, 5, 12])),
        "n": n,
        "dt": draw(st.sampled_from([0.01, 0.05, 0.1])),
        "seed": draw(gen.seeds),
    }


@st.composite
def exact_cases(draw):
    return {"dim": draw(st.integers(1, 2)), "const": draw(st.booleans()), "seed": draw(gen.seeds)}


@st.composite
def noise_cases(draw):
    return {"dim": draw(st.integers(1, 2)), "L": draw(st.integers(12, 20)), "n": draw(st.integers(4, 50)), "dt": draw(st.sampled_from([0.1, 0.01, 0.5])), "seed": draw(gen.seeds)}


@st.composite
def init_cases(draw):
    n_mem = draw(st.sampled_from([0, 0, 1, 2, 5]))
    if draw(st.integers(0, 5)) == 3:  # few frames to draw from, each of them can be the start
        lens = draw(st.lists(st.integers(n_mem + 1, n_mem + 3), min_size=1, max_size=3))
        return {"dim": draw(st.integers(1, 3)), "lens": lens, "n_mem": n_mem, "one": draw(st.booleans()), "explicit": draw(st.booleans()), "tries": 40 * len(lens) * (max(lens) - n_mem) + 1, "dt": 0.1, "seed": draw(gen.seeds)}
    return {"dim": draw(st.integers(1, 3)), "lens": draw(st.lists(st.integers(n_mem + 1, n_mem + 20), min_size=1, max_size=4)), "n_mem": n_mem, "one": draw(st.booleans()), "explicit": draw(st.booleans()), "tries": draw(st.sampled_from([3, 40])), "dt": draw(st.sampled_from([0.1, 0.02])), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C25",
    "random bases, forces, kernels (independent of the position or not, truncated, projected on the range), dimensions 1-3, given by a model or as arguments, with or without noise, started from rest, a point or a history of frames: each frame compared with the same scheme written step by step; restarted from its own frames; linear systems with exponential memory compared with the matrix exponential at two time steps; covariance of the random force obtained with unit vectors as random numbers; initial conditions compared with the trajectories they are drawn from. Non-trivial: more than two steps that stay in the range of the basis.",
    [SubCheck("scheme", cases, check, 350), SubCheck("exact", exact_cases, check_exact, 60), SubCheck("noise", noise_cases, check_noise, 16, thorough=160), SubCheck("initial", init_cases, check_initial, 150)],
    assumptions=["the origin of the times of the returned trajectory is not claimed", "kernels of three frames or more"],
)
