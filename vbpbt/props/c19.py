"""C19: a saved model, in memory or on disk, gives back the same model."""
import contextlib
import copy
import os
import shutil
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, SubCheck, Violation, as_np, close, require, rng_of


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vbpbt_c19_")
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    except OSError as e:  # a file that cannot be read or written is a failure of the code here
        raise Violation("file error: %s" % (e,))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def same(a, b, what):
    require((a is None) == (b is None), "%s: %s became %s", what, "nothing" if a is None else "a value", "nothing" if b is None else "a value")
    if a is not None:
        close(as_np(b), as_np(a), what, rtol=1e-13)


def check(case):
    r = ref.Ref(case)
    if not r.healthy(case["method"]):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    est = ref.estimator(r)
    m = est.model
    steps = case["steps"]
    lab = []
    massive = (r.dim == 1 or case["model"] in ref.VEL + ("Pos_gle_const_kernel",)) and not r.rank_projection
    if "force" in steps:
        est.compute_mean_force()
    if "kernel" in steps:
        est.compute_mean_force()
        est.compute_corrs()
        est.compute_kernel(method=case["method"])
        if case.get("own"):  # a kernel of the user, computed by no method
            m.method = None
    if case.get("gfpe") and "kernel" not in steps:  # projected correlations first, then the basis functions observed without projection
        est.compute_mean_force()
        est.compute_corrs()
        est.to_gfpe()
        est.compute_mean_force()
        lab.append("gfpe")
    if "mass" in steps:
        est.compute_effective_mass()
    if "posmass" in steps and massive:
        est.compute_gram_kernel()
        KA = as_np(m.gram_kernel)
        if np.linalg.cond(KA) < 1e8:
            est.compute_pos_effective_mass()
    before = {k: (v.copy() if isinstance(v, xr.DataArray) else v) for k, v in m.__dict__.items()}
    saved = m.save_model()
    for k, v in before.items():
        now = getattr(m, k)
        if isinstance(v, xr.DataArray):
            require(now.identical(v), "saving modifies %s of the model", k)
    if case["disk"]:
        with scratch():
            saved.to_netcdf("model.nc")
            with xr.open_dataset("model.nc") as f:
                saved = f.load()
        lab.append("disk")
    attrs = dict(saved.attrs)
    basis = copy.deepcopy(m.basis)
    new = type(m).load_model(basis, saved)
    require(dict(saved.attrs).keys() == attrs.keys(), "loading changes the saved dataset")
    require(type(new) is type(m), "class of the model")
    for k in ("force_coeff", "kernel", "eff_mass", "inv_mass_coeff", "gram_force", "gram_kernel", "P_range"):
        same(getattr(m, k), getattr(new, k), k)
    for k in ("dim_x", "dim_obs", "trunc_ind", "N_basis_elt", "N_basis_elt_force", "N_basis_elt_kernel", "rank_projection"):
        require(int(getattr(m, k)) == int(getattr(new, k)), "%s: %s became %s", k, getattr(m, k), getattr(new, k))
    require(abs(float(new.dt) - float(m.dt)) <= 1e-15 * abs(m.dt), "time step %s became %s", m.dt, new.dt)
    require(str(new.L_obs) == m.L_obs, "observable %s became %s", m.L_obs, new.L_obs)
    require((m.method is None and new.method is None) or str(new.method) == str(m.method), "method %s became %s", m.method, new.method)
    # options given when loading have precedence over what is saved; a basis not yet fitted is fitted to the description given
    alt = type(m).load_model(basis, saved, trunc_ind=3, dt=0.7)
    require(int(alt.trunc_ind) == 3 and float(alt.dt) == 0.7 and int(alt.dim_x) == int(m.dim_x) and str(alt.L_obs) == m.L_obs, "loaded with trunc_ind=3, dt=0.7: trunc_ind=%s, dt=%s, dim_x=%s, L_obs=%s", alt.trunc_ind, alt.dt, alt.dim_x, alt.L_obs)
    pts = r.xs[:5]
    if m.force_coeff is not None:
        alt = type(m).load_model(ref.new_basis(case), saved, describe_data=est.describe_data())
        close(alt.force_eval(pts), m.force_eval(pts), "force of the model loaded with a new basis", rtol=1e-12)
    # the loaded model can do what the first one could
    if m.force_coeff is not None:
        close(new.force_eval(pts), m.force_eval(pts), "force of the loaded model", rtol=1e-12)
    if m.kernel is not None:
        close(new.kernel["time_kernel"], m.kernel["time_kernel"], "times of the kernel", rtol=1e-13)
        a, b = m.kernel_eval(pts), new.kernel_eval(pts)
        require(a.dims == b.dims, "dimensions of the kernel: %s became %s", a.dims, b.dims)
        close(b, a, "kernel of the loaded model", rtol=1e-12)
        if case["method"] not in ("midpoint", "midpoint_w_richardson"):
            ds = ref.trajs(r)[0]
            for p, q, w in zip(m.compute_noise(ds), new.compute_noise(ds), ("time", "noise", "observable", "force", "memory")):
                close(q, p, w + " of the loaded model", rtol=1e-10)
            lab.append("noise")
        s, l1 = m.laplace_transform_kernel(n_points=4)
        close(new.laplace_transform_kernel(n_points=4)[1], l1, "Laplace transform of the loaded model", rtol=1e-10)
    if m.inv_mass_coeff is not None:
        close(new.inv_mass_eval(pts), m.inv_mass_eval(pts), "mass of the loaded model", rtol=1e-12)
        lab.append("posmass")
    # saving the loaded model again changes nothing
    again = new.save_model()
    for k in saved.data_vars:
        require(k in again, "%s is lost when the loaded model is saved", k)
        if saved[k].dtype.kind in "fi":
            close(again[k], saved[k], k + " saved twice", rtol=1e-13)
    return {"nontrivial": m.force_coeff is not None, "labels": lab + [case["model"], case["method"], "-".join(sorted(steps)), "projected" if m.P_range is not None else "full"]}


def check_files(case):
    """saveall: what is on disk is what has been computed"""
    r = ref.Ref(case)
    if not r.healthy(case["method"]):
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    with scratch():
        pre = {"": "", "name": "run_", "dir": os.path.join("sub", "a_")}[case["prefix"]]
        if case["prefix"] == "dir":
            os.mkdir("sub")
        kw = {"prefix": pre} if pre else {}
        est = ref.estimator(r, saveall=True, **kw)
        est.compute_mean_force()
        so = case["so"] or case["method"].startswith("second")
        est.compute_corrs(**({} if so else {"second_order_method": False}))
        est.compute_kernel(method=case["method"])
        require(os.path.exists(pre + "corrs.nc") and os.path.exists(pre + "kernel.nc"), "missing files, found %s", sorted(os.listdir(".")))
        with xr.open_dataset(pre + "corrs.nc") as f:
            c = f.load()
        with xr.open_dataset(pre + "kernel.nc") as f:
            k = f.load()
        pairs = [("bkbk", est.bkbkcorrw), ("bkdx", est.bkdxcorrw)]
        if so:
            pairs += [("dotbkbk", est.dotbkbkcorrw), ("dotbkdx", est.dotbkdxcorrw)]
        for name, arr in pairs:
            require(name in c, "%s is not in the file", name)
            close(c[name].transpose(*arr.dims), arr, name + " in the file", rtol=1e-13)
        close(c["time_trunc"], np.arange(arr.shape[-1]) * r.dt, "times of the correlations", rtol=1e-12)
        close(k["kernel"].transpose(*est.model.kernel.dims), est.model.kernel, "kernel in the file", rtol=1e-13)
        close(k["time_kernel"], est.model.kernel["time_kernel"], "times of the kernel in the file", rtol=1e-12)
        # and nothing is written when it is not asked for
    with scratch():
        est = ref.estimator(r, saveall=False)
        est.compute_mean_force()
        est.compute_corrs()
        est.compute_kernel(method=case["method"])
        require(os.listdir(".") == [], "files written with saveall=False: %s", os.listdir("."))
    return {"nontrivial": True, "labels": ["files", case["prefix"] or "noprefix", "so%d" % so, case["method"]]}


METHODS = ["rect", "rectangular", "trapz", "second_kind_rect", "second_kind_trapz", "midpoint"]


@st.composite
def cases(draw):
    c = draw(ref.est_case(dims=(1, 1, 2), max_trajs=2, min_len=30, max_len=70))
    c["trunc"] = draw(st.integers(5, 10))
    c["method"] = draw(st.sampled_from(METHODS))
    c["steps"] = draw(st.lists(st.sampled_from(["force", "kernel", "mass", "posmass", "kernel"]), max_size=4, unique=False))
    c["steps"] = sorted(set(c["steps"]))
    c["disk"] = draw(st.booleans())
    c["own"] = draw(st.integers(0, 4)) == 0
    c["gfpe"] = draw(st.integers(0, 2)) == 0
    return c


@st.composite
def file_cases(draw):
    c = draw(ref.est_case(dims=(1, 2), max_trajs=2, min_len=30, max_len=60))
    c["trunc"] = draw(st.integers(5, 10))
    c["method"] = draw(st.sampled_from(METHODS))
    c["prefix"] = draw(st.sampled_from(["", "name", "dir"]))
    c["so"] = draw(st.booleans())
    return c


PROPERTY = Property(
    "C19",
    "models with any subset of force, kernel, masses and Gram matrices computed, any method, loaded with the fitted basis, a new one and its description, or other options; saved to a dataset or to a netCDF file in a scratch directory and loaded back: every stored quantity and every evaluation compared; files written by an estimator compared with what it holds. Non-trivial: at least the force has been computed.",
    [SubCheck("model", cases, check, 350), SubCheck("files", file_cases, check_files, 100)],
    assumptions=["the user provides the fitted basis when loading, as the API requires"],
)
