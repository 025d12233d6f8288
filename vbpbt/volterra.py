"""Reference side of the Volterra inversion: correlations that can be given to an estimator, discretised equations."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

import VolterraBasis as vb
import VolterraBasis.basis as bf

from . import gen
from .core import close, require, rng_of

METHODS = ["rectangular", "rect", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]


def lengths(max_n):
    short = st.sampled_from([4, 5, 6, 9, 10] + list(range(6, max_n)))
    return st.one_of(*[short] * 15, st.integers(max_n, 170), st.integers(300, 380))


@st.composite
def corr_case(draw, max_n=40):
    c = {"K": draw(st.integers(1, 4)), "d": draw(st.integers(1, 3)), "n": draw(lengths(max_n)), "dt": draw(st.sampled_from([0.1, 0.02, 0.5, 1.0])), "seed": draw(gen.seeds), "spread": draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, 2.2])), "unit": draw(st.sampled_from([0, 0, 0, -6, 6]))}
    if draw(st.integers(0, 59)) == 17:  # many functions
        c["K"], c["n"] = draw(st.integers(20, 70)), draw(st.integers(4, 14))
    return c


def synthetic(case):
    """B, DxB, dotB, dotDxB: generic smooth-ish correlations, not symmetric in the functions."""
    rng = rng_of(case["seed"], 12)
    K, d, n, dt = case["K"], case["d"], case["n"], case["dt"]
    t = np.arange(n) / 10.0
    A = rng.normal(size=(K, K))
    B = np.zeros((K, K, n))
    for _ in range(2):
        S = np.eye(K) + 0.25 * rng.normal(size=(K, K))
        B += S[:, :, None] * np.exp(-t * rng.uniform(0.05, 0.4)) * np.cos(t * rng.uniform(0.0, 0.5))
    C0 = A @ A.T + K * np.eye(K)
    B = np.einsum("ab,bcn->acn", C0, B)
    dB = np.zeros_like(B)
    for _ in range(2):
        dB += (0.3 * rng.normal(size=(K, K)))[:, :, None] * np.sin(t * rng.uniform(0.5, 1.5) + rng.uniform(0, 6))
    # keep the second kind equation well posed whatever dt
    dB *= np.linalg.norm(B[:, :, 0], -2) / (dt * 12)
    X = rng.normal(size=(K, d, n)) * np.exp(-0.3 * t)
    dX = rng.normal(size=(K, d, n)) * np.exp(-0.3 * t) / dt
    if case.get("spread") or case.get("unit"):  # functions of different magnitudes, other units
        u = 10.0 ** (case["unit"] / 2 - case["spread"] * np.linspace(0, 1, K))
        B, X, dB, dX = u[:, None, None] * B * u[None, :, None], u[:, None, None] * X, u[:, None, None] * dB * u[None, :, None], u[:, None, None] * dX
    return B, X, dB, dX


def blank_estimator(dt, n, K, d, saveall=False):
    """An estimator with its own data, to which correlations are then given."""
    x = np.linspace(-1, 1, n + 6)[:, None]
    obs = np.zeros((n + 6, d))
    ds = vb.xframe(x, np.arange(n + 6) * dt, v=x.copy(), a=x.copy())
    ds["obs"] = (("time", "dim_o"), obs)
    return vb.Estimator_gle([ds], vb.Pos_gle_overdamped, bf.FourierFeatures(order=1, freq=1.0), trunc=(n - 0.5) * dt, L_obs="obs", saveall=saveall, verbose=False)


def give(est, B, X, dB, dX):
    est.bkbkcorrw = xr.DataArray(B, dims=("dim_basis'", "dim_basis", "time_trunc"))
    est.bkdxcorrw = xr.DataArray(X, dims=("dim_basis", "dim_o", "time_trunc"))
    est.dotbkbkcorrw = xr.DataArray(dB, dims=("dim_basis'", "dim_basis", "time_trunc"))
    est.dotbkdxcorrw = xr.DataArray(dX, dims=("dim_basis", "dim_o", "time_trunc"))
    return est


def conv(B, K, i, w):
    """sum_j w_j B(i - j) K_j, j = 0..len(w)-1"""
    w = np.asarray(w)
    j = np.arange(len(w))
    return np.einsum("abj,jbc->ac", B[:, :, i - j], w[:, None, None] * K[: len(w)])


def midpoint_ref(B, X, dt):
    n = B.shape[2]
    nk = n // 2
    ker = np.zeros((nk, B.shape[0], X.shape[1]))
    A = -2 * dt * B[:, :, 1]
    for i in range(nk):
        if 2 * i + 2 > n - 1:
            return ker, i
        rhs = X[:, :, 2 * i + 2].copy()
        j = np.arange(i)
        rhs += 2 * dt * np.einsum("abj,jbc->ac", B[:, :, 2 * (i - j) + 1], ker[:i])
        ker[i] = np.linalg.solve(A, rhs)
    return ker, nk


def trapz_ref(B, X, dt, k0):
    n = B.shape[2]
    ker = np.zeros((n, B.shape[0], X.shape[1]))
    ker[0] = k0
    A = -0.5 * dt * B[:, :, 0]
    for i in range(1, n):
        rhs = X[:, :, i] + 0.5 * dt * B[:, :, i] @ k0
        j = np.arange(1, i)
        rhs = rhs + dt * np.einsum("abj,jbc->ac", B[:, :, i - j], ker[1:i])
        ker[i] = np.linalg.solve(A, rhs)
    return ker


def lead(method, B, dB, dt):
    """Matrix that is inverted at each step."""
    if method in ("rect", "rectangular", "midpoint"):
        return B[:, :, 1]
    if method == "midpoint_w_richardson":
        return B[:, :, 1]
    if method == "second_kind_trapz":
        return B[:, :, 0] - 0.5 * dt * dB[:, :, 0]
    return B[:, :, 0]


def grow(a):
    """largest magnitude up to each time"""
    return np.maximum.accumulate(np.abs(a).reshape(len(a), -1).max(axis=1))


def check_kernel(method, ker, time, B, X, dB, dX, dt, k0=None):
    """ker (time, basis, obs) satisfies the discretisation of its method; k0: initial value given by the user."""
    n = B.shape[2]
    cond = np.linalg.cond(lead(method, B, dB, dt))
    cond0 = np.linalg.cond(B[:, :, 0])
    if max(cond, cond0) > 1e6:
        return False
    if n > 60 and not np.all(np.abs(ker) < 1e100):  # an unstable scheme on many steps
        return False
    rt = 1e-11 * max(cond, cond0)
    full = np.arange(n) * dt
    kk = k0
    if k0 is None and method in ("trapz", "second_kind_rect", "second_kind_trapz"):
        kk = np.linalg.solve(B[:, :, 0], dX[:, :, 0])
    tB = np.abs(B).max()
    tdB = np.abs(dB).max() if dB is not None else 0.0
    K = ker.shape[1]
    gk = np.concatenate(([0.0], grow(ker)))
    if method in ("rect", "rectangular"):
        close(time, full, "times of the kernel", rtol=1e-12)
        require(len(ker) == n, "kernel of %d times for %d", len(ker), n)
        for i in range(1, n):
            got = -dt * conv(B, ker, i, np.ones(i))
            close(got, X[:, :, i], "rectangular: discretised Volterra equation at frame %d" % i, rtol=rt, scale=np.abs(X[:, :, i]).max() + dt * i * tB * K * gk[i] + 1e-300)
    elif method in ("second_kind_rect", "second_kind_trapz"):
        close(time, full, "times of the kernel", rtol=1e-12)
        require(len(ker) == n, "kernel of %d times for %d", len(ker), n)
        close(ker[0], kk, method + ": initial value", rtol=rt, scale=np.abs(kk).max() + 1e-300)
        for i in range(1, n):
            w = dt * np.ones(i + 1)
            if method == "second_kind_rect":
                w[i] = 0.0
            else:
                w[0] = w[i] = 0.5 * dt
            got = B[:, :, 0] @ ker[i] - conv(dB, ker, i, w)
            close(got, dX[:, :, i], method + ": discretised Volterra equation at frame %d" % i, rtol=rt, scale=np.abs(dX[:, :, i]).max() + (tB * K + dt * i * tdB * K) * gk[i + 1] + 1e-300)
    elif method == "midpoint":
        want, m = midpoint_ref(B, X, dt)
        require(len(ker) == n // 2, "midpoint: kernel of %d times for %d correlations", len(ker), n)
        close(time, full[1::2], "times of the kernel", rtol=1e-12)
        for i in range(m):
            j = np.arange(i + 1)
            got = -2 * dt * np.einsum("abj,jbc->ac", B[:, :, 2 * (i - j) + 1], ker[: i + 1])
            close(got, X[:, :, 2 * i + 2], "midpoint: discretised Volterra equation at step %d" % i, rtol=rt, scale=np.abs(X[:, :, 2 * i + 2]).max() + 2 * dt * (i + 1) * tB * K * gk[i + 1] + 1e-300)
    elif method == "midpoint_w_richardson":
        if np.linalg.cond(B[:, :, 3]) > 1e6:
            return False
        k1, m1 = midpoint_ref(B, X, dt)
        k3, m3 = midpoint_ref(B[:, :, ::3], X[:, :, ::3], 3 * dt)
        nk = min(len(k1[1::3]), len(k3))
        require(len(ker) == nk, "richardson: kernel of %d times, expected %d", len(ker), nk)
        close(time, full[3::6][:nk], "times of the kernel", rtol=1e-12)
        s1, s3 = grow(k1), grow(k3)
        for i in range(nk):
            if i >= m3 or 3 * i + 1 >= m1:
                break
            sc = s1[3 * i + 1] + s3[i]
            close(ker[i], (9 * k1[3 * i + 1] - k3[i]) / 8, "richardson: extrapolation of the kernels with dt and 3dt, step %d" % i, rtol=1e-6 * max(1.0, rt / 1e-9), scale=sc)
    elif method == "trapz":
        want = trapz_ref(B, X, dt, kk)
        sm = 0.5 * (want[1:-1] + 0.5 * (want[:-2] + want[2:]))
        require(len(ker) == n - 1, "trapz: kernel of %d times for %d correlations", len(ker), n)
        close(time, full[:-1], "times of the kernel", rtol=1e-12)
        close(ker[0], kk, "trapz: initial value", rtol=rt, scale=np.abs(kk).max() + 1e-300)
        g = grow(want)
        for i in range(1, n - 1):
            close(ker[i], sm[i - 1], "trapz: smoothed solution of the discretised equation at frame %d" % i, rtol=1e-6 * max(1.0, rt / 1e-9), scale=g[i + 1])
    return True
