BUGS=[]
def bug(id,prop,file,reps,needs,what,demo):
    BUGS.append(dict(id=id,prop=prop,file='VolterraBasis/'+file,reps=reps if isinstance(reps,list) else [reps],needs=needs,what=what,demo=demo))

TRJ = '''
def trajs(lens, dim=1, seed=0, dt=0.02):
    rng = np.random.default_rng(seed)
    out = []
    for n in lens:
        x = np.cumsum(0.1 * rng.normal(size=(n, dim)), axis=0)
        x = x - x.mean(axis=0)
        ds = vb.xframe(x, np.arange(n) * dt)
        out.append(vb.compute_va(ds))
    return out


def est(xs, model, basis, **kw):
    kw.setdefault("trunc", 0.2)
    return vb.Estimator_gle(xs, model, basis, saveall=False, verbose=False, **kw)
'''


CORR = """
def fake(C, D, dt, dC=None, dD=None):
    n = C.shape[-1]
    x = np.linspace(0, 1, n + 2)[:, None] ** 2
    xva = vb.compute_va(vb.xframe(x, np.arange(n + 2) * dt))
    e = vb.Estimator_gle(xva, vb.Pos_gle_const_kernel, bf.LinearFeatures(), trunc=1e9, saveall=False, verbose=False)
    e.model.trunc_ind = n
    e.bkbkcorrw = xr.DataArray(C, dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.bkdxcorrw = xr.DataArray(D, dims=("dim_basis", "dim_x", "time_trunc"))
    e.dotbkbkcorrw = None if dC is None else xr.DataArray(dC, dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.dotbkdxcorrw = None if dD is None else xr.DataArray(dD, dims=("dim_basis", "dim_x", "time_trunc"))
    return e
"""


bug("S44","C21","models.py",('        for n in range(1, corrs_kernel.shape[-1]):\n            max_len = min(n, kernel.shape[0] - 1)','        for n in range(1, min(corrs_force.shape[-1], corrs_kernel.shape[-1])):\n            max_len = min(n, kernel.shape[0] - 1)'),
 "correlations for the force shorter than the ones for the memory","the memory part of the flux stays at zero at the times for which there is no force part","""
from VolterraBasis.models import Pos_gle_const_kernel
rng = np.random.default_rng(0)
m = vb.Pos_gle_const_kernel(bf.LinearFeatures().fit(np.array([[-1.0], [1.0]])), 0.1)
C = rng.normal(size=(1, 1, 9))
kw = dict(force_coeff=rng.normal(size=(1, 1)), kernel=rng.normal(size=(5, 1, 1)))
a = m.flux_from_volterra(C, C, **kw)[1]
b = m.flux_from_volterra(C[:, :, :6], C, **kw)[1]
assert np.allclose(a, b)
""")
bug("S45","C14","models.py",("            rank_tol = S.max(axis=-1, keepdims=True) * max(B0.shape[-2:]) * np.finfo(S.dtype).eps\n","            rank_tol = max(B0.shape[-2:]) * np.finfo(S.dtype).eps * np.maximum(S.max(axis=-1, keepdims=True), 1.0)\n"),
 "the model with projection on the range, no tolerance given, trajectories in units in which the correlations are tiny","the default tolerance is absolute for small correlations, so that the memory basis loses elements in some units",TRJ+"""
def K(lam):
    xs = trajs([300, 200], seed=2)
    xs = [vb.compute_va(vb.xframe(lam * np.asarray(x["x"]), np.asarray(x["time"]))) for x in xs]
    e = est(xs, vb.Pos_gle, bf.PolynomialFeatures(2, remove_const=False))
    e.compute_mean_force()
    e.compute_corrs()
    return e.bkbkcorrw.shape
assert K(1.0) == K(2.0**-16)
""")
bug("S46","C33","correlation.py",("    res = np.zeros((len_trunc,))\n    res[0] = np.dot(a, b) / len_dat","    res = np.zeros((len_trunc,), dtype=np.result_type(a, b))\n    res[0] = np.dot(a, b) / len_dat"),
 "the direct correlation of data stored as integers","the averages are rounded down to integers","""
from VolterraBasis.correlation import correlation_direct_1D
a = np.array([1, 4, 2, 3, 7, 5])
assert np.allclose(correlation_direct_1D(a), correlation_direct_1D(a.astype(float)))
""")
bug("S47","C10","gle_estimation.py",("np.linalg.inv(v2), dims","np.linalg.pinv(v2, rcond=1e-4), dims"),
 "velocities along one direction much smaller than along the others","the effective mass of the slow direction is zero",TRJ+"""
xs = trajs([200], dim=2)[0]
y = np.asarray(xs["x"]) * np.array([1.0, 2e-3])
xs = vb.compute_va(vb.xframe(y, np.asarray(xs["time"])))
e = est(xs, vb.Pos_gle, bf.LinearFeatures())
m = e.compute_effective_mass().eff_mass.to_numpy()
v = xs["v"].to_numpy()
assert np.allclose(m @ (v.T @ v / len(v)), np.eye(2), atol=1e-6)
""")
bug("S48","C18","models.py",("        dx = x[1] - x[0]\n\n        diff_mass","        dx = np.abs(x[1] - x[0])\n\n        diff_mass"),
 "the free energy integrated on points given in decreasing order","the free energy has the opposite sign",TRJ+"""
xs = trajs([400])[0]
e = est(xs, vb.Pos_gle, bf.BSplineFeatures(5))
e.compute_mean_force()
e.compute_pos_effective_mass()
x = np.asarray(xs["x"]).ravel()
g = np.linspace(np.quantile(x, 0.2), np.quantile(x, 0.8), 401)
a = e.model.pmf_num_int_eval(g, set_zero=False)
b = e.model.pmf_num_int_eval(g[::-1], set_zero=False)
da, db = a[-1] - a[0], b[0] - b[-1]
assert abs(da - db) < 0.1 * abs(da) + 1e-6, (da, db)
""")
bug("S49","C28","gle_estimation.py",('        if k0 is None and method in','        if k0 is None and method == "trapz" and self.model.method == method:  # Already known\n            k0 = self.model.kernel.to_numpy()[0]\n        if k0 is None and method in'),
 "the trapezoidal kernel computed twice by the same estimator, the force and the correlations having changed in between","the second kernel starts from the first value of the first one",TRJ+"""
xs = trajs([200, 150], seed=4)
e = est(xs, vb.Pos_gle_const_kernel, bf.LinearFeatures())
e.compute_mean_force()
e.compute_corrs()
e.compute_kernel(method="trapz")
e.set_zero_force()
e.compute_corrs()
a = e.compute_kernel(method="trapz").kernel.to_numpy()
f = est(xs, vb.Pos_gle_const_kernel, bf.LinearFeatures())
f.set_zero_force()
f.compute_corrs()
b = f.compute_kernel(method="trapz").kernel.to_numpy()
assert np.allclose(a, b)
""")
