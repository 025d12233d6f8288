BUGS=[]
def bug(id,prop,file,reps,needs,what,demo):
    BUGS.append(dict(id=id,prop=prop,file='VolterraBasis/'+file,reps=reps if isinstance(reps,list) else [reps],needs=needs,what=what,demo=demo))

TRJ = '''
def trajs(lens, dim=1, seed=0, dt=0.02):
    rng = np.random.default_rng(seed)
    out = []
    for n in lens:
        x = np.cumsum(0.1 * rng.normal(size=(n, dim)), axis=0)
        x = x - x.mean(axis=0)
        ds = vb.xframe(x, np.arange(n) * dt)
        out.append(vb.compute_va(ds))
    return out


def est(xs, model, basis, **kw):
    kw.setdefault("trunc", 0.2)
    return vb.Estimator_gle(xs, model, basis, saveall=False, verbose=False, **kw)
'''


CORR = """
def fake(C, D, dt, dC=None, dD=None):
    n = C.shape[-1]
    x = np.linspace(0, 1, n + 2)[:, None] ** 2
    xva = vb.compute_va(vb.xframe(x, np.arange(n + 2) * dt))
    e = vb.Estimator_gle(xva, vb.Pos_gle_const_kernel, bf.LinearFeatures(), trunc=1e9, saveall=False, verbose=False)
    e.model.trunc_ind = n
    e.bkbkcorrw = xr.DataArray(C, dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.bkdxcorrw = xr.DataArray(D, dims=("dim_basis", "dim_x", "time_trunc"))
    e.dotbkbkcorrw = None if dC is None else xr.DataArray(dC, dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.dotbkdxcorrw = None if dD is None else xr.DataArray(dD, dims=("dim_basis", "dim_x", "time_trunc"))
    return e
"""

bug("S33","C15","models.py",("            memory = memory_trapz(self.kernel[:trunc_kernel], E, dt)","            memory = memory_trapz(self.kernel, E, dt)"),
 "a kernel of a trapezoidal method, shortened when the noise is computed","the length asked for the kernel is not used",TRJ+"""
xs = trajs([80])[0]
e = est(xs, vb.Pos_gle_const_kernel, bf.LinearFeatures())
e.compute_mean_force()
e.compute_corrs()
m = e.compute_kernel(method="second_kind_trapz")
a = m.compute_noise(xs, trunc_kernel=4)
m.kernel = m.kernel[:4]
b = m.compute_noise(xs)
assert np.allclose(np.asarray(a[4]), np.asarray(b[4]))
""")
bug("S36","C21","models.py",("        s_range = np.linspace(s_start, s_end, n_points)\n","        s_range = np.linspace(s_start, s_end, n_points)\n") if False else ('        time = self.kernel["time_kernel"].to_numpy()\n','        time = np.arange(self.kernel.shape[0]) * self.dt\n'),
 "a kernel of the midpoint method, whose times are every second one","the Laplace transform is that of a kernel compressed in time",TRJ+"""
xs = trajs([80])[0]
e = est(xs, vb.Pos_gle_const_kernel, bf.LinearFeatures())
e.compute_mean_force()
e.compute_corrs()
m = e.compute_kernel(method="midpoint")
from scipy.integrate import simpson
s, L = m.laplace_transform_kernel(s_start=0.5, s_end=2.0, n_points=3)
t = m.kernel["time_kernel"].to_numpy()
k = m.kernel.to_numpy()[:, 0, 0]
assert np.allclose(L[:, 0, 0], [simpson(np.exp(-q * t) * k, x=t) for q in s])
""")
bug("S38","C28","models.py",("        # Check actual rank of the matrix\n        # Do SVD\n","        if self.P_range is not None:  # Already known\n            return self.P_range\n        # Check actual rank of the matrix\n        # Do SVD\n"),
 "correlations computed a second time with another tolerance (or after the trajectories or the basis changed)","the projection of the first call is kept, and the tolerance of the second is not used",TRJ+"""
xs = trajs([300, 200], seed=2)
def go(tols):
    e = est(xs, vb.Pos_gle, bf.PolynomialFeatures(3, remove_const=False))
    e.compute_mean_force()
    for t in tols:
        e.compute_corrs(rank_tol=t)
    return e.bkbkcorrw.shape
e = est(xs, vb.Pos_gle, bf.PolynomialFeatures(3, remove_const=False))
e.compute_mean_force()
e.compute_corrs()
s = np.linalg.svd(e.bkbkcorrw.transpose("time_trunc", ...).to_numpy()[0])[1]
tol = np.sqrt(s[-1] * s[-2])
assert go([tol]) == go([None, tol])
""")
bug("S39","C29","gle_estimation.py",("            for xva in self.xva_list:\n                if \"time\" not in xva.dims:","            for xva in self.xva_list[:1]:\n                if \"time\" not in xva.dims:"),
 "several trajectories, one after the first without a time step","the trajectory is accepted",TRJ+"""
xs = trajs([40, 50])
del xs[1].attrs["dt"]
try:
    est(xs, vb.Pos_gle, bf.LinearFeatures())
except Exception:
    pass
else:
    raise AssertionError("accepted")
""")
bug("S40","C32","gle_estimation.py",("""            if self.verbose:
                print("Warning: Found a trajectory shorter than " "the argument trunc. Override.")
            trunc = smallest
""","""            if self.verbose:
                print("Warning: Found a trajectory shorter than " "the argument trunc. Override.")
                trunc = smallest
"""),
 "a truncation longer than the shortest of several trajectories, and verbose=False","the truncation is only shortened when it is said",TRJ+"""
a = est(trajs([80, 40]), vb.Pos_gle, bf.LinearFeatures(), trunc=1.0).model.trunc_ind
b = vb.Estimator_gle(trajs([80, 40]), vb.Pos_gle, bf.LinearFeatures(), saveall=False, verbose=True, trunc=1.0).model.trunc_ind
assert a == b, (a, b)
""")
bug("S41","C31","models.py",("            dE = xr.dot(dbk, xva[\"a\"], dims=[\"dim_x\"]) + xr.dot(ddbk, xva[\"v\"], xva[\"v\"].rename({\"dim_x\": \"dim_x'\"}), dims=[\"dim_x\", \"dim_x'\"])\n            return E, Evel, dE","            dE = xr.dot(dbk, xva[self.L_obs].rename({xva[self.L_obs].dims[1]: \"dim_x\"}), dims=[\"dim_x\"]) + xr.dot(ddbk, xva[\"v\"], xva[\"v\"].rename({\"dim_x\": \"dim_x'\"}), dims=[\"dim_x\", \"dim_x'\"])\n            return E, Evel, dE"),
 "the model with friction and an observable that is not the acceleration","the time derivative of the memory basis uses the observable in place of the acceleration",TRJ+"""
xs = trajs([60])[0]
xs = xs.assign(w=3.0 * xs["a"] + 1.0)
b = bf.PolynomialFeatures(2).fit(np.array([[-1.0], [1.0]]))
m = vb.Pos_gle_with_friction(b, 0.02, L_obs="w")
dE = m.basis_vector(xs)[2].to_numpy()
x, v, a = (xs[k].to_numpy()[:, 0] for k in "xva")
assert np.allclose(dE, np.stack((a, 2 * x * a + 2 * v**2), axis=1))
""")

bug("S31","C12","gle_estimation.py",('        if k0 is None and method in ["trapz"','        if not np.any(k0) and method in ["trapz"'),
 "an initial value of the kernel that is given and is zero","a given initial value of zero is replaced by the one of the data",CORR+"""
rng = np.random.default_rng(1)
n = 8
C = 0.1 * rng.normal(size=(2, 2, n)); C[:, :, 0] = np.eye(2)
D = rng.normal(size=(2, 1, n))
e = fake(C, D, 0.1, 0.1 * rng.normal(size=(2, 2, n)), rng.normal(size=(2, 1, n)))
k = e.compute_kernel(method="second_kind_trapz", k0=np.zeros((2, 1))).kernel.to_numpy()
assert np.all(k[0] == 0.0), k[0]
""")
bug("S32","C13","gle_estimation.py",("kernel = 0.5 * (ker[1:-1, :, :] + 0.5 * (ker[:-2, :, :] + ker[2:, :, :]))  # Smoothing","kernel = 0.5 * (ker[1:-1, :, :] + ker[:-2, :, :])  # Smoothing"),
 "the trapezoidal method, observed over several time steps","the smoothing is not centred, so that the kernel converges to the true one at first order only",CORR+"""
from scipy.linalg import expm
A = 1.3
err = []
for n in (61, 121):
    dt = 3.0 / (n - 1)
    t = np.arange(n) * dt
    G = np.array([[0.0, -1.0], [A, -1.0]])
    E = np.array([expm(G * s) for s in t])
    e = fake(E[:, 0, 0][None, None], (G @ E)[:, 0, 0][None, None], dt)
    k = e.compute_kernel(method="trapz", k0=np.array([[A]])).kernel
    d = np.abs(k.to_numpy()[:, 0, 0] - A * np.exp(-k["time_kernel"].to_numpy()))
    err.append(d.max())
assert err[1] < err[0] / 3, err
""")
bug("S34","C16","models.py",("        elif isinstance(left_op, str):\n","        elif isinstance(left_op, str) and left_op == self.L_obs:  # Orthogonal to the noise up to the force\n            left_op_dat = noise\n        elif isinstance(left_op, str):\n"),
 "the left observable given by name, and being the observable of the model","the correlation is that of the noise at time zero and not of the observable",TRJ+"""
xs = trajs([80])[0]
e = est(xs, vb.Pos_gle_const_kernel, bf.LinearFeatures())
e.compute_mean_force()
e.compute_corrs()
m = e.compute_kernel()
t, a = m.compute_corrs_w_noise(xs, "a")
t, b = m.compute_corrs_w_noise(xs, lambda d: d["a"])
assert np.allclose(np.asarray(a), np.asarray(b))
""")
bug("S35","C20","models.py",("        coeffs_ker = self.kernel.to_numpy()[:trunc_ind, :, :]\n","        coeffs_ker = self.kernel.to_numpy()[: min(trunc_ind, max(lenTraj - 1, 1)), :, :]\n"),
 "a run that is not longer than the kernel","the last step of a short run leaves out the memory of the initial value",TRJ+"""
xs = trajs([80])[0]
e = est(xs, vb.Pos_gle_overdamped, bf.LinearFeatures(), L_obs="v") if False else None
m = vb.Pos_gle_overdamped(bf.LinearFeatures().fit(np.array([[-1.0], [1.0]])), 0.1, trunc_ind=12)
m.force_coeff = xr.DataArray(np.array([[-0.3]]), dims=("dim_basis", "dim_x"))
k = np.exp(-0.1 * np.arange(12))[:, None, None]
m.kernel = xr.DataArray(k, dims=("time_kernel", "dim_basis", "dim_x"))
a = m.evolve_volterra(np.array([[1.0]]), 6)[1]
b = m.evolve_volterra(np.array([[1.0]]), 10)[1]
assert np.allclose(a, b[..., :6], atol=1e-12), (a, b)
""")
bug("S37","C27","fit_memory.py",('        p0 = [0.001 / (times[1] - times[0]), 0.1 / (times[1] - times[0]), 0.5]\n','        p0 = [0.1 / (times[1] - times[0]), 0.1 / (times[1] - times[0]), 0.5]\n'),
 "a memory with two well separated times","the fit starts from two equal rates, where the gradient cannot tell the two apart, and stays there",TRJ+"""
from VolterraBasis.fit_memory import memory_fit
t = np.arange(200) * 0.02
for al, b, c in ((0.1, 2.0, 60.0), (0.3, 0.2, 1.0), (0.5, 0.2, 2.0), (0.8, 0.5, 5.0)):
    y = al * np.exp(-b * t) + (1 - al) * np.exp(-c * t)
    p = memory_fit(t, y, type="double_exp_norm")[1]
    z = p[2] * np.exp(-p[0] * t) + (1 - p[2]) * np.exp(-p[1] * t)
    assert np.abs(z - y).max() < 1e-6
""")
bug("S42","C30","basis/_mesh_utils.py",("        boundary_vertices[min_arete, :] = get_intersect(pre_a, pre_b, post_a, post_b)\n","        boundary_vertices[min_arete, :] = 0.5 * (pre_b + post_a)\n"),
 "a convex hull with an edge short enough to be removed","the short edge is replaced by its middle and not by the point where its neighbours meet, so that data points fall out of the mesh",TRJ+"""
pts = np.array([[0.0, 0.0], [4.0, 0.0], [4.0, 3.8], [3.8, 4.0], [0.0, 4.0]])
rng = np.random.default_rng(0)
data = np.concatenate((pts, rng.uniform(0.5, 3.5, size=(40, 2))))
from VolterraBasis.basis._mesh_utils import centroid_driven_mesh
from scipy.spatial import Delaunay
v, tri = centroid_driven_mesh(data, bins=5, simplify_hull=0.02)
hull = Delaunay(v)
assert np.all(hull.find_simplex(data, tol=1e-9) >= 0)
""")
bug("S43","C24","models.py",("        if trunc_ind is None or trunc_ind <= 0:","        if trunc_ind is None or trunc_ind < 0:"),
 "a truncation of the memory to zero steps","the Fortran routine is given an empty kernel and reads before its end",TRJ+"""
m = vb.Pos_gle_overdamped(bf.LinearFeatures().fit(np.array([[-1.0], [1.0]])), 0.1, trunc_ind=12)
m.force_coeff = xr.DataArray(np.array([[-0.3]]), dims=("dim_basis", "dim_x"))
k = np.exp(-0.1 * np.arange(12))[:, None, None]
m.kernel = xr.DataArray(k, dims=("time_kernel", "dim_basis", "dim_x"))
res = [m.evolve_volterra(np.array([[1.0]]), 10)[1]]
try:
    res.append(m.evolve_volterra(np.array([[1.0]]), 10, trunc_ind=0)[1])
except Exception:
    pass
assert np.allclose(res[-1], res[0]), res
""")
