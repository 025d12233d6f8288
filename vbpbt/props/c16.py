"""C16: correlations of the projected noise with any observable."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import ref
from ..core import Property, SubCheck, as_np, close, require
from .c15 import RECT, long_memory, prepared, regress


def reference(kind, ker, E, dx, left, dt):
    T, L = len(E), len(ker)
    n = min(L if kind == "rect" else L - 1, T)
    out = np.zeros((n, left.shape[1], dx.shape[1]))
    for m in range(n):
        # projected noise after m steps, starting from each t
        z = dx[m:].copy()
        for j in range(m + 1):
            w = dt if kind == "rect" else dt
            if kind == "rect":
                if j == m:
                    continue
            elif m == 0:
                continue
            elif j in (0, m):
                w = 0.5 * dt
            z += w * E[m - j : T - j] @ ker[j]
        out[m] = left[: T - m].T @ z / (T - m)
    return out


def check(case):
    r = ref.Ref(case)
    if not r.healthy(case["method"]):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    if case["over"] is not None and not case["own"]:  # about as long as the shortest trajectory: lags of no frames are not judged
        case = dict(case, klen=min(r.lens) + case["over"])
    est, ker = prepared(case, r, case["method"])
    f = as_np(est.model.force_coeff)
    kind = "rect" if case["method"] in RECT else "trapz"
    lefts = {"none": None, "v": "v", "x": "x", "callable": lambda ds: np.concatenate([as_np(ds["v"]) ** 2, as_np(ds["x"])], axis=1)}
    lefts.update({"w": "w", "function of w": lambda ds: as_np(ds["w"])[:, ::-1] ** 2})
    op = lefts.get(case["left"])
    ws = [np.stack([np.cos(x[:, 0]), x[:, 0] ** 2 - 0.3, v[:, 0]], axis=1) for x, v, a in r.arrays]
    for ds, w in zip(est.xva_list, ws):  # a variable that the model does not need
        ds["w"] = (("time", "dim_w"), w.copy())
    want, scale = 0.0, 0.0
    for i, arr in enumerate(r.arrays):
        wf, E = regress(est, r, arr, f)
        dx = r.L(i) - wf
        x, v, a = arr
        left = {"w": ws[i], "function of w": ws[i][:, ::-1] ** 2, "none": dx, "v": v, "x": x, "callable": np.concatenate([v**2, x], axis=1), "array": np.stack([np.sin(x[:, 0]), v[:, 0], a[:, 0]], axis=1)}["array" if case["left"] == "DataArray" else case["left"]]
        want_i = reference(kind, ker, E, dx, left, r.dt)
        n_lags = len(ker) - (kind != "rect")
        sc = np.abs(left).max() * (np.abs(dx).max() + r.dt * np.abs(E).max() * np.abs(ker).sum(axis=0).max() * E.shape[1])
        scale = max(scale, sc)
        m = min(len(want_i), min(r.lens))
        want = want + want_i[:m] * r.lens[i] / r.tot
        # on one trajectory
        op_i = left.copy() if case["left"] == "array" else xr.DataArray(left.copy(), dims=("time", "dim_w")) if case["left"] == "DataArray" else op
        t, c = est.model.compute_corrs_w_noise(est.xva_list[i], op_i)
        require(len(c) == n_lags, "%d lags for a kernel of %d frames", len(c), len(ker))
        close(as_np(c)[: len(want_i)], want_i, "correlations of the projected noise (%s) with %s" % (kind, case["left"]), rtol=1e-8, scale=sc)
        kt = as_np(est.model.kernel["time_kernel"])
        close(t, kt[:n_lags], "times", rtol=1e-12)
    if case["left"] not in ["array", "DataArray"]:
        with ref.threads():
            t, c = est.compute_projected_corrs(left_op=op)
        close(as_np(c)[: len(want)], want, "correlations of the projected noise over all the trajectories", rtol=1e-8, scale=scale)
        close(t, kt[:n_lags], "times", rtol=1e-9, atol=1e-12)
    return {"nontrivial": len(ker) > 3, "labels": [kind, case["left"], case["model"], "trajs%d" % len(r.lens), "projected" if r.rank_projection else "full"] + (["whole trajectory"] if len(ker) >= min(r.lens) else [])}


@st.composite
def cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2), max_trajs=3, min_len=24, max_len=70))
    c["trunc"] = draw(st.integers(6, 18))
    c["method"] = draw(st.sampled_from(["rect", "rectangular", "trapz", "second_kind_rect", "second_kind_trapz"]))
    c["own"] = draw(st.booleans())
    c["klen"] = draw(st.sampled_from([0, 0, 3, 12]))
    c["over"] = draw(st.sampled_from([None, None, None, None, -1, 0, 1, 4]))
    long_memory(draw, c)
    c["left"] = draw(st.sampled_from(["none", "none", "v", "x", "callable", "array", "DataArray", "w", "function of w"]))
    return c


PROPERTY = Property(
    "C16",
    "every model, random basis, 1-3 trajectories, kernel computed or given, left observable absent (noise), named, computed by a function, or an array: compared at each lag with the definition, the noise projected by the memory from each starting frame. Non-trivial: more than three lags.",
    [SubCheck("projected", cases, check, 350)],
)
