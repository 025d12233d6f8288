"""Generators shared by the properties: bases, points, trajectories (JSON specs -> objects)."""
import numpy as np
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from .core import rng_of

seeds = st.integers(0, 2**31 - 1)

POLYS = ["Polynomial", "Chebyshev", "Legendre", "Hermite", "HermiteE", "Laguerre"]


def wide(lo, hi, full, top):
    """integers lo..hi; a generator with its full range (hi == full) goes now and then up to top"""
    if hi < full:
        return st.integers(lo, hi)
    return st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.integers(lo, hi), st.integers(lo, top))


def poly_spec(max_deg=5, rc=None, fams=POLYS, min_deg=1):
    return st.fixed_dictionaries({"kind": st.just("poly"), "deg": wide(min_deg, max_deg, 5, 14), "fam": st.sampled_from(fams), "rc": st.booleans() if rc is None else st.just(rc)})


def fourier_spec(max_order=4, rc=None):
    return st.fixed_dictionaries({"kind": st.just("fourier"), "order": wide(1, max_order, 4, 14), "freq": st.sampled_from([1.0, 0.5, 2.0, 0.3, 1.7, -0.8]), "rc": st.booleans() if rc is None else st.just(rc)})


def linear_spec():
    return st.fixed_dictionaries({"kind": st.just("linear"), "center": st.booleans()})


def splinefct_spec(kmin=1):
    return st.fixed_dictionaries({"kind": st.just("splinefct"), "k": st.integers(kmin, 5), "n": st.integers(1, 6), "seed": seeds, "lo": st.sampled_from([-4.0, -3.5]), "hi": st.sampled_from([4.0, 3.6])})


@st.composite
def bspline_spec(draw, rc=None, periodic=None, kmax=5):
    k = draw(st.integers(1, kmax))
    per = draw(st.booleans()) if periodic is None else periodic
    n = draw(st.integers(k + 1 + (1 if per else 0), k + 7))
    return {"kind": "bspline", "n_knots": n, "k": k, "per": per, "rc": draw(st.booleans()) if rc is None else rc}


@st.composite
def indicator_spec(draw, max_states=4, periodic=None, types=("tricube", "triweight", "quartic"), starts=(-2.5, -1.5, -1.0, -0.6)):
    n = draw(st.integers(1, max_states))
    per = draw(st.booleans()) if periodic is None else periodic
    if per and not draw(st.sampled_from([False, False, False, True])):
        n = max(n, 2)  # a single boundary on a circle: one indicator, everywhere one
    # alternating gaps: core, boundary, core, boundary ...; strictly ordered disjoint boundaries
    x = draw(st.sampled_from(list(starts)))
    bounds = []
    for _ in range(n):
        w = draw(st.sampled_from([0.1, 0.25, 0.5, 1.0]))
        b = [round(x, 6), round(x + w, 6)]
        if draw(st.booleans()):
            b = b[::-1]  # the order inside one boundary does not matter
        bounds.append(b)
        x = x + w + draw(st.sampled_from([0.1, 0.3, 0.7]))
    return {"kind": "indicator", "bounds": bounds, "type": draw(st.sampled_from(list(types))), "per": per}


def basis_1d_spec(rc=None):
    return st.one_of(linear_spec(), poly_spec(rc=rc), fourier_spec(rc=rc), splinefct_spec(), bspline_spec(rc=rc), indicator_spec(), bspline_spec(rc=rc, periodic=True), bspline_spec(rc=rc, periodic=False), indicator_spec(periodic=True), indicator_spec(types=("user", "tricube", "triweight", "quartic")))


def basis_nd_spec(rc=None, max_deg=4):
    return st.one_of(linear_spec(), poly_spec(max_deg=max_deg, rc=rc), fourier_spec(max_order=3, rc=rc), splinefct_spec())


def any_dim(spec):
    """does the basis make sense in any dimension?"""
    return all(any_dim(q) for q in spec["parts"]) if spec["kind"] == "combine" else spec["kind"] in ("linear", "poly", "fourier", "splinefct")


def user_boundary(u, der=0):
    """A user supplied C2 boundary function, 1 -> 0 when u goes 0 -> 1"""
    if der == 0:
        return 1 - u**3 * (10 - 15 * u + 6 * u**2)
    if der == 1:
        return -30 * u**2 * (1 - u) ** 2
    if der == 2:
        return -60 * u * (1 - u) * (1 - 2 * u)


def build(spec):
    k = spec["kind"]
    if k == "linear":
        return bf.LinearFeatures(to_center=spec["center"])
    if k == "poly":
        return bf.PolynomialFeatures(deg=spec["deg"], polynom=getattr(np.polynomial, spec["fam"]), remove_const=spec["rc"])
    if k == "fourier":
        return bf.FourierFeatures(order=spec["order"], freq=spec["freq"], remove_const=spec["rc"])
    if k == "splinefct":
        t, c = splinefct_data(spec)
        return bf.SplineFctFeatures(knots=t, coeffs=c, k=spec["k"])
    if k == "bspline":
        return bf.BSplineFeatures(n_knots=spec["n_knots"], k=spec["k"], periodic=spec["per"], remove_const=spec["rc"])
    if k == "indicator":
        return bf.SmoothIndicatorFeatures(spec["bounds"], user_boundary if spec["type"] == "user" else spec["type"], periodic=spec["per"])
    if k == "combine":
        return bf.FeaturesCombiner(*[build(s) for s in spec["parts"]])
    if k == "tensor":
        if spec.get("b2") is None:
            return bf.TensorialBasis2D(build(spec["b1"]))
        return bf.TensorialBasis2D(build(spec["b1"]), build(spec["b2"]))
    raise ValueError(k)


def splinefct_data(spec):
    rng = rng_of(spec["seed"], 77)
    k, n = spec["k"], spec["n"]
    inner = np.sort(rng.uniform(spec["lo"] + 0.3, spec["hi"] - 0.3, size=n))
    t = np.concatenate((np.full(k + 1, spec["lo"]), inner, np.full(k + 1, spec["hi"])))
    c = rng.normal(size=n + k + 1)
    return t, c


def n_features(spec, dim):
    """Number of functions of the basis, as documented."""
    k = spec["kind"]
    if k in ("linear", "splinefct"):
        return dim
    if k == "poly":
        return dim * (spec["deg"] + 1)
    if k == "fourier":
        return dim * (2 * spec["order"] + 1)
    if k == "bspline":
        return spec["n_knots"] - (1 if spec["per"] else 0)
    if k == "indicator":
        return len(spec["bounds"]) + (0 if spec["per"] else 1)
    if k == "combine":
        return sum(n_features(s, dim) for s in spec["parts"])
    if k == "tensor":
        return n_features(spec["b1"], 1) * n_features(spec["b2"] or spec["b1"], 1)
    raise ValueError(k)


def kept_columns(spec, dim):
    """Columns of basis() that have a counterpart in deriv(): the constant is removed when asked."""
    n = n_features(spec, dim)
    k = spec["kind"]
    if k in ("poly", "fourier") and spec["rc"]:
        return np.arange(dim, n)
    if k == "bspline" and spec["rc"]:
        return np.arange(0, n - dim)
    if k == "combine":
        cols, off = [], 0
        for s in spec["parts"]:
            cols.append(off + kept_columns(s, dim))
            off += n_features(s, dim)
        return np.concatenate(cols)
    return np.arange(n)


def smoothness(spec):
    """Largest derivative order for which the functions are piecewise smooth with known break points."""
    return spec


def breakpoints(spec, lo=None, hi=None):
    """Points of the line where a 1D function of the basis may be non smooth (fit range lo..hi)."""
    k = spec["kind"]
    if k == "splinefct":
        return np.unique(splinefct_data(spec)[0])
    if k == "indicator":
        return np.unique(np.asarray(spec["bounds"], dtype=float).ravel())
    if k == "bspline":
        import scipy.interpolate as si

        kn = np.linspace(lo, hi, spec["n_knots"])
        return np.unique(si.splrep(kn, np.zeros(len(kn)), k=spec["k"], per=spec["per"])[0])
    if k == "combine":
        return np.unique(np.concatenate([breakpoints(s, lo, hi) for s in spec["parts"]]))
    return np.zeros(0)


def has(spec, kind):
    if spec["kind"] == kind:
        return True
    if spec["kind"] == "combine":
        return any(has(s, kind) for s in spec["parts"])
    if spec["kind"] == "tensor":
        return has(spec["b1"], kind) or (spec.get("b2") is not None and has(spec["b2"], kind))
    return False


# ---------------------------------------------------------------- data
def traj_spec(dim=None, min_len=12, max_len=160, max_trajs=4, kinds=("noise", "ar", "harm"), min_trajs=1):
    d = st.integers(1, 3) if dim is None else st.just(dim)
    return st.fixed_dictionaries(
        {
            "dim": d,
            "lens": st.lists(st.integers(min_len, max_len), min_size=min_trajs, max_size=max_trajs),
            "kind": st.sampled_from(list(kinds)),
            "dt": st.sampled_from([0.1, 0.05, 0.01, 0.5, 1.0, 0.125]),
            "seed": seeds,
        }
    )


def _path(rng, n, dim, kind, dt):
    if kind == "noise":
        x = rng.uniform(-1.6, 1.6, size=(n, dim))
        v = rng.normal(size=(n, dim))
        a = rng.normal(size=(n, dim)) - 0.7 * x
    elif kind == "ar":
        x = np.zeros((n, dim))
        v = np.zeros((n, dim))
        a = np.zeros((n, dim))
        xc, vc = rng.normal(size=dim), rng.normal(size=dim)
        for i in range(n):
            ac = -xc - 0.4 * vc + rng.normal(size=dim)
            x[i], v[i], a[i] = xc, vc, ac
            vc = 0.8 * vc + 0.6 * rng.normal(size=dim) - 0.2 * xc
            xc = 0.9 * xc + 0.4 * rng.normal(size=dim)
    else:
        t = np.arange(n) * dt
        x = np.zeros((n, dim))
        v = np.zeros((n, dim))
        a = np.zeros((n, dim))
        for d in range(dim):
            for _ in range(6):
                w = rng.uniform(0.3, 2.5) / max(dt, 0.05)
                p = rng.uniform(0, 2 * np.pi)
                A = rng.uniform(0.2, 0.6)
                x[:, d] += A * np.sin(w * t + p)
                v[:, d] += A * w * np.cos(w * t + p)
                a[:, d] += -A * w * w * np.sin(w * t + p)
    return x, v, a


def make_arrays(spec):
    """list of (x, v, a) numpy arrays"""
    res = [_path(rng_of(spec["seed"], i), n, spec["dim"], spec["kind"], spec["dt"]) for i, n in enumerate(spec["lens"])]
    if spec.get("int"):  # numbers that may be stored as integers
        res = [tuple(np.round(2 * z) for z in arr) for arr in res]
    if spec.get("vs"):  # other units for the velocities
        res = [(x, v * 10.0 ** spec["vs"], a * 10.0 ** spec["vs"]) for x, v, a in res]
    if spec.get("aniso"):  # components of the velocity on different scales
        f = 10.0 ** np.resize(np.asarray(spec["aniso"], dtype=float), spec["dim"])
        res = [(x, v * f, a * f) for x, v, a in res]
    return res


def make_trajs(spec, dask=False, arrays=None, chunk=None):
    """list of datasets with x, v, a as a user gets them from xframe with external velocities"""
    arrays = make_arrays(spec) if arrays is None else arrays
    res = []
    for i, (x, v, a) in enumerate(arrays):
        t = np.arange(x.shape[0]) * spec["dt"]
        if dask:
            import dask.array as da

            ch = chunk or max(3, x.shape[0] // 3)
            x, v, a = (da.from_array(z.copy(), chunks=(ch, -1)) for z in (x, v, a))
        else:
            x, v, a = x.copy(), v.copy(), a.copy()
        ds = vb.xframe(x, t, v=v, a=a)
        if spec.get("t0"):  # parts of longer trajectories
            ds = ds.assign_coords(time=t + (i + 1) * spec["t0"] * spec["dt"])
        res.append(ds)
    return res


MODELS = {
    "Pos_gle": vb.Pos_gle,
    "Pos_gle_with_friction": vb.Pos_gle_with_friction,
    "Pos_gle_no_vel_basis": vb.Pos_gle_no_vel_basis,
    "Pos_gle_const_kernel": vb.Pos_gle_const_kernel,
    "Pos_gle_hybrid": vb.Pos_gle_hybrid,
    "Pos_gle_overdamped": vb.Pos_gle_overdamped,
}


POLY_OK = ["Polynomial", "Chebyshev", "Legendre", "HermiteE"]


@st.composite
def model_basis(draw, dims=(1, 2), models=tuple(MODELS), full_rank=False, antider=False):
    """(dim, model name, basis spec): combinations that the models support, well conditioned on generic data."""
    model = draw(st.sampled_from(list(models)))
    dim = draw(st.sampled_from(list(dims)))
    if model == "Pos_gle_hybrid":
        dim = 1
    # the velocity part of the basis has no constant: needed by the force regression (friction) or asked for (full_rank)
    rc_needed = model == "Pos_gle_with_friction" or (full_rank and model == "Pos_gle")
    rc = True if rc_needed else None
    if dim == 1:
        opts = [poly_spec(max_deg=3, rc=rc, fams=POLY_OK), poly_spec(max_deg=3, rc=rc, fams=POLY_OK), linear_spec(), fourier_spec(max_order=2, rc=rc)]
        opts.append(bspline_spec(rc=rc, kmax=3, periodic=False))
        if not rc_needed and not antider:
            opts.append(indicator_spec(max_states=2, periodic=False, starts=(-1.0, -0.6)))
        if not antider:
            opts.append(st.just({"kind": "combine", "parts": [{"kind": "linear", "center": False}, {"kind": "fourier", "order": 1, "freq": 1.3, "rc": True}]}))
    else:
        opts = [linear_spec()]
        if antider:
            opts.append(splinefct_spec(kmin=3))
        else:
            opts.append(st.just({"kind": "combine", "parts": [{"kind": "linear", "center": False}, {"kind": "splinefct", "k": 3, "n": 4, "seed": 5, "lo": -8.0, "hi": 8.0}]}))
        if dim == 2 and not rc_needed and not antider:
            one = st.one_of(poly_spec(max_deg=2, rc=False, fams=["Polynomial", "Chebyshev"]), indicator_spec(max_states=1, periodic=False, starts=(-1.0, -0.6)))
            opts.append(st.builds(lambda a, b: {"kind": "tensor", "b1": a, "b2": b}, one, one))
    return {"dim": dim, "model": model, "basis": draw(st.one_of(*opts))}
