BUGS=[]
def bug(id,prop,file,reps,needs,what,demo):
    BUGS.append(dict(id=id,prop=prop,file='VolterraBasis/'+file,reps=reps if isinstance(reps,list) else [reps],needs=needs,what=what,demo=demo))

TRJ = '''
def trajs(lens, dim=1, seed=0, dt=0.02):
    rng = np.random.default_rng(seed)
    out = []
    for n in lens:
        x = np.cumsum(0.1 * rng.normal(size=(n, dim)), axis=0)
        x = x - x.mean(axis=0)
        ds = vb.xframe(x, np.arange(n) * dt)
        out.append(vb.compute_va(ds))
    return out


def est(xs, model, basis, **kw):
    kw.setdefault("trunc", 0.2)
    return vb.Estimator_gle(xs, model, basis, saveall=False, verbose=False, **kw)
'''


CORR = """
def fake(C, D, dt, dC=None, dD=None):
    n = C.shape[-1]
    x = np.linspace(0, 1, n + 2)[:, None] ** 2
    xva = vb.compute_va(vb.xframe(x, np.arange(n + 2) * dt))
    e = vb.Estimator_gle(xva, vb.Pos_gle_const_kernel, bf.LinearFeatures(), trunc=1e9, saveall=False, verbose=False)
    e.model.trunc_ind = n
    e.bkbkcorrw = xr.DataArray(C, dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.bkdxcorrw = xr.DataArray(D, dims=("dim_basis", "dim_x", "time_trunc"))
    e.dotbkbkcorrw = None if dC is None else xr.DataArray(dC, dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.dotbkdxcorrw = None if dD is None else xr.DataArray(dD, dims=("dim_basis", "dim_x", "time_trunc"))
    return e
"""



bug("S50","C10","gle_estimation.py",("        self.weights = np.array([xva[\"time\"].shape[0] for xva in self.xva_list], dtype=int)","        self.weights = np.array([xva[\"time\"].shape[0] for xva in self.xva_list], dtype=np.int16)"),
 "a trajectory of more than 32767 frames","the number of frames of a long trajectory overflows: its weight is negative",TRJ+"""
xs = trajs([33000, 500], seed=1)
e = est(xs, vb.Pos_gle, bf.LinearFeatures())
e.compute_effective_mass()
v = np.concatenate([x["v"].values for x in xs])
assert np.allclose(e.model.eff_mass.values, 1 / np.mean(v**2))
""")
bug("S51","C10","gle_estimation.py",("            for des_data in describe_set[1:]:\n","            for des_data in describe_set[1 : 8 * self.n_jobs + 2]:\n"),
 "more than ten trajectories, the extreme positions of the data in one of the last","the description of the data given to the basis leaves out the trajectories after the tenth",TRJ+"""
xs = trajs([60] * 14, seed=1)
xs[12]["x"] = xs[12]["x"] + 5
e = est(xs, vb.Pos_gle_no_vel_basis, bf.BSplineFeatures(6, remove_const=False))
x = np.concatenate([x["x"].values for x in xs])
d = e.describe_data()
assert np.allclose(d.minmax[1], x.max()) and d.nobs == len(x)
""")
bug("S52","C11","gle_estimation.py",("        smallest = np.min(lastinds)","        smallest = lastinds[np.argmin(self.weights[:-1])] if len(lastinds) > 2 else np.min(lastinds)"),
 "three trajectories or more of which the last is the shortest, and shorter than the truncation","the truncation is not reduced to the shortest trajectory: its correlations cannot be added to the others",TRJ+"""
xs = trajs([300, 250, 40], seed=1)
e = est(xs, vb.Pos_gle, bf.LinearFeatures(), trunc=2.0)
e.compute_mean_force()
e.compute_corrs()
assert e.bkbkcorrw.sizes["time_trunc"] == 38, e.bkbkcorrw.sizes
""")
bug("S53","C25","gle_integrate.py",("        point = np.random.randint(n_mem, xva[\"time\"].shape[0])","        point = np.random.randint(n_mem, max(n_mem + 1, xva[\"time\"].shape[0] - 1))"),
 "the frames asked for are all the frames of the trajectory but one, or the last frame is the only one with its value","initial_conditions never draws the last frame of a trajectory",TRJ+"""
class M:
    pass
np.random.seed(0)
m = vb.Integrator_gle(None, basis=bf.LinearFeatures().fit(np.array([[-1.0], [1.0]])), force_coeff=-np.ones((1, 1)), kernel=np.exp(-np.arange(5.0)), dt=0.02, verbose=False)
xs = trajs([6], seed=1)
last = {float(m.initial_conditions(xs, n_mem=2)["x"].values[-1, 0]) for _ in range(200)}
assert last == set(xs[0]["x"].values[2:, 0].tolist()), last
""")
bug("S54","C27","fit_memory.py",("    integral = scipy.integrate.cumulative_trapezoid(data, times, initial=0)[len(times) // 2 :]","    integral = scipy.integrate.cumulative_trapezoid(data, dx=times[1] - times[0], initial=0)[len(times) // 2 :]"),
 "times that are not evenly spaced","the integral of the memory takes all the steps for the first one",TRJ+"""
from VolterraBasis.fit_memory import asymptotic_fit_integral
t = np.geomspace(0.01, 50, 400)
p = asymptotic_fit_integral(t, np.exp(-t))
assert abs(p[0] - 1) < 0.1, p
""")
bug("S55","C07","__init__.py",("        dt = time[1] - time[0]\n    if v is None:","        dt = time[-1] / (len(time) - 1)\n    if v is None:"),
 "a trajectory whose times do not start at zero","the recorded time step is wrong for trajectories that start later",TRJ+"""
t = 3.0 + 0.1 * np.arange(20)
x = vb.xframe(np.sin(t), t)
assert abs(x.attrs["dt"] - 0.1) < 1e-9
""")
bug("S56","C17","models.py",("        elif compute_for == \"kernel\":\n            # Extend the basis for multidim value\n            return bk.expand_dims","        elif compute_for == \"kernel\":\n            # Extend the basis for multidim value\n            bk = bk.isel(dim_basis=slice(0, self.N_basis_elt_kernel - self.dim_obs))\n            return bk.expand_dims"),
 "the hybrid model with several observables","the last functions of the basis are missing from the evaluation of the kernel",TRJ+"""
m = vb.Pos_gle_hybrid(bf.PolynomialFeatures(3, remove_const=False).fit(np.array([[-1.0], [1.0]])), 0.1, dim_obs=2, trunc_ind=4)
assert m.basis_vector(xr.Dataset({"x": (("time", "dim_x"), np.linspace(-1, 1, 5)[:, None])}), compute_for="kernel").sizes["dim_basis"] == 4
""")
bug("S57","C16","models.py",("            left_op_dat = left_op(xva)\n","            left_op_dat = left_op(xva[self.set_of_obs])\n"),
 "a function of the trajectory that reads a variable other than the ones of the model","the function given gets a trajectory without its other variables",TRJ+"""
xs = trajs([200], seed=1)
xs[0]["w"] = xs[0]["x"] ** 2
e = est(xs, vb.Pos_gle, bf.LinearFeatures())
e.compute_mean_force(); e.compute_corrs(); e.compute_kernel()
e.compute_projected_corrs(left_op=lambda t: t["w"])
""")
bug("S59","C30","basis/_mesh_utils.py",("        pre_a = boundary_vertices[(min_arete - 1) % len(boundary_vertices)]","        pre_a = boundary_vertices[max(min_arete - 1, 0)]"),
 "the hull has a very short edge and it is the first one","removing the first edge intersects with the wrong line, the simplified hull does not enclose the data",TRJ+"""
from VolterraBasis.basis._mesh_utils import remove_one_point
h = np.array([[0.0, 0.0], [0.01, 0.0], [1.0, 0.7], [0.5, 1.5], [-0.5, 1.0]])
r, s = remove_one_point(h.copy(), 0.01)
assert s and np.all(np.isfinite(r)) and len(r) == 4
""")
bug("S60","C03","basis/_data_describe.py",("(d1.mean * d1.nobs + d2.mean * d2.nobs) / (d1.nobs + d2.nobs)","d1.mean + (d2.mean - d1.mean) * max(d2.nobs / (d1.nobs + d2.nobs), 1e-3)"),
 "merging the description of a very long trajectory with that of one a thousand times shorter","the mean of the merged data gives too much weight to very short trajectories",TRJ+"""
from VolterraBasis.basis import sum_describe
from scipy.stats import describe
a = np.zeros((60000, 1)); a[::2] = 1.0
b = np.full((3, 1), 50.0)
d = sum_describe(describe(a), describe(b))
assert np.allclose(d.mean, np.concatenate([a, b]).mean())
""")
