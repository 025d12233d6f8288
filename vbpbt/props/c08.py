"""C08: compute_1d_fe: histogram, free energy and conditional averages of the pooled trajectories."""
import numpy as np
import scipy.interpolate
from hypothesis import strategies as st

import VolterraBasis as vb

from .. import gen
from ..core import Property, SubCheck, Violation, close, require, rng_of


def trajs(case):
    rng = rng_of(case["seed"], 1)
    out = []
    for i, n in enumerate(case["lens"]):
        x = rng.normal(size=n) * case["width"] + (0.3 * i)
        v = rng.normal(size=n) * (1 + 0.2 * np.tanh(x))
        a = -x + 0.3 * rng.normal(size=n)
        out.append((x, v, a))
    return out


def oracle(case, tr, edges, lowest):
    x, v, a = (np.concatenate([t[k] for t in tr]) for k in range(3))
    idx = np.searchsorted(edges, x, side="left") - 1  # right closed bins
    if lowest:
        idx[x == edges[0]] = 0
    ok = (idx >= 0) & (idx < len(edges) - 1)
    nb = len(edges) - 1
    cnt = np.bincount(idx[ok], minlength=nb).astype(float)
    s2 = np.bincount(idx[ok], weights=v[ok] ** 2, minlength=nb)
    sa = np.bincount(idx[ok], weights=a[ok], minlength=nb)
    return cnt, s2, sa


def check(case):
    tr = trajs(case)
    xs = np.concatenate([t[0] for t in tr])
    ds = [vb.xframe(x.copy(), np.arange(len(x)) * 0.1, v=v.copy(), a=a.copy()) for x, v, a in tr]
    if case["bins"] == "auto":
        edges = np.histogram_bin_edges(xs, bins="auto")
    else:
        edges = np.linspace(xs.min(), xs.max(), case["bins"])
    keep = [d.copy(deep=True) for d in ds]
    got_h = vb.compute_1d_fe(ds, bins=case["bins"], hist=True)
    cent = 0.5 * (edges[1:] + edges[:-1])
    for d, k in zip(ds, keep):
        require(d.identical(k), "the trajectory has been modified")
    err = None
    for lowest in (False, True):
        cnt, s2, sa = oracle(case, tr, edges, lowest)
        try:
            close(got_h[0], cent, "centers of the bins", rtol=1e-12, atol=1e-12)
            close(got_h[1], cnt / cnt.sum(), "histogram", rtol=1e-12)
            pf = cnt / cnt.sum()
            nz = np.nonzero(pf)[0]
            if len(nz) >= 5:
                kw = {} if case["kT"] is None else {"kT": case["kT"]}
                kT = 2.494 if case["kT"] is None else case["kT"]
                xf, fe, force, mean_a, ftot, mass = vb.compute_1d_fe(ds, bins=case["bins"], **kw)
                close(xf, cent[nz], "visited bins", rtol=1e-12, atol=1e-12)
                w = -np.log(pf[nz])
                close(fe, w - w.min(), "free energy", rtol=1e-10, scale=max(1.0, w.max()))
                close(mean_a, sa[nz] / cnt[nz], "mean acceleration in a bin", rtol=1e-10, scale=max(1e-3, np.abs(sa[nz] / cnt[nz]).max()))
                close(mass, s2[nz] / cnt[nz], "mean square velocity in a bin", rtol=1e-10)
                avg = s2.sum() / cnt.sum()
                spl = scipy.interpolate.splrep(cent[nz], w - w.min(), s=0)
                df = scipy.interpolate.splev(cent[nz], spl, der=1)
                close(force, -df * kT / avg, "force", rtol=1e-7, scale=max(1e-3, np.abs(df * kT / avg).max()))
                spl = scipy.interpolate.splrep(cent[nz], s2[nz] / cnt[nz] * pf[nz], s=0)
                dm = scipy.interpolate.splev(cent[nz], spl, der=1) / pf[nz]
                close(ftot, dm, "total force", rtol=1e-7, scale=max(1e-3, np.abs(dm).max()))
            break
        except Violation as e:
            err = err or e
    else:
        raise err
    # the result does not depend on the order of the trajectories
    if len(ds) > 1:
        h2 = vb.compute_1d_fe(ds[::-1], bins=case["bins"], hist=True)
        close(h2[1], got_h[1], "histogram with the trajectories in reverse order", rtol=1e-12)
    return {"nontrivial": len(nz) >= 5, "labels": ["trajs%d" % len(ds), "auto" if case["bins"] == "auto" else "int", "empty" if len(nz) < len(cent) else "full"]}


@st.composite
def cases(draw):
    return {"lens": draw(st.lists(st.integers(30, 400), min_size=1, max_size=4) if draw(st.integers(0, 9)) else st.lists(st.integers(3, 60), min_size=8, max_size=24)), "bins": draw(st.one_of(st.integers(4, 40), st.just("auto"))), "kT": draw(st.sampled_from([None, 1.0, 0.5, 3.0])), "width": draw(st.sampled_from([1.0, 0.3, 5.0])), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C08",
    "1-4 random one dimensional trajectories of different lengths, integer or automatic bins; histogram, free energy, conditional means and forces compared with a numpy computation on the pooled samples. Non-trivial: at least five visited bins, so that the free energy is computed.",
    [SubCheck("fe", cases, check, 260)],
    assumptions=["the left-most sample (lower edge of the first bin) may be counted or not: pandas bins are closed to the right"],
)
