BUGS=[]
def bug(id,prop,file,reps,needs,what,demo):
    BUGS.append(dict(id=id,prop=prop,file='VolterraBasis/'+file,reps=reps if isinstance(reps,list) else [reps],needs=needs,what=what,demo=demo))

TRJ = '''
def trajs(lens, dim=1, seed=0, dt=0.02):
    rng = np.random.default_rng(seed)
    out = []
    for n in lens:
        x = np.cumsum(0.1 * rng.normal(size=(n, dim)), axis=0)
        x = x - x.mean(axis=0)
        ds = vb.xframe(x, np.arange(n) * dt)
        out.append(vb.compute_va(ds))
    return out


def est(xs, model, basis, **kw):
    kw.setdefault("trunc", 0.2)
    return vb.Estimator_gle(xs, model, basis, saveall=False, verbose=False, **kw)
'''


bug("S13","C15","fkernel.f90",("    do j=0,min(i,len_mem)\n       memory(i,:)=memory(i,:)-dt","    do j=0,min(i,len_mem-1)\n       memory(i,:)=memory(i,:)-dt"),
 "the rectangular rule and a kernel whose last frame is not zero (truncated or given)","the last frame of the kernel is left out of the memory",TRJ+"""
xs = trajs([80])[0]
e = est(xs, vb.Pos_gle_const_kernel, bf.LinearFeatures())
e.compute_mean_force()
e.compute_corrs()
m = e.compute_kernel(method="rect")
K, v, dt = m.kernel.to_numpy()[:, 0, 0], xs["v"].to_numpy()[:, 0], 0.02
L = 5
t, noise, obs, force, mem = m.compute_noise(xs, trunc_kernel=L)
for i in (3, 20, 60):
    s = sum(dt * v[i - j] * K[j] for j in range(min(i, L - 1) + 1))
    assert abs(np.asarray(mem)[i, 0] + s) < 1e-9 * max(1.0, abs(s)), i
""")
bug("S17","C19","models.py",('"basis", "force_coeff", "gram_force", "N_basis_elt_force", "N_basis_elt_kernel"]:','"basis", "force_coeff", "gram_force", "method", "N_basis_elt_force", "N_basis_elt_kernel"]:'),
 "a model with a kernel of a trapezoidal method, saved and loaded, whose noise is then computed","the method of the kernel is lost, so that the memory of the loaded model follows another rule",TRJ+"""
xs = trajs([80])
e = est(xs, vb.Pos_gle, bf.PolynomialFeatures(2))
e.compute_mean_force()
e.compute_corrs()
m = e.compute_kernel(method="trapz")
n = vb.Pos_gle.load_model(bf.PolynomialFeatures(2), m.save_model())
assert np.allclose(m.compute_noise(xs[0])[1], n.compute_noise(xs[0])[1])
""")
bug("S20","C22","gle_estimation.py",("_, _, dE = model.basis_vector(self.xva_list[i])","_, _, dE = self.model.basis_vector(self.xva_list[i])"),
 "to_gfpe with another model than the one of the estimator","the observable is the time derivative of the wrong basis",TRJ+"""
xs = trajs([80])
e = est(xs, vb.Pos_gle_overdamped, bf.BSplineFeatures(5))
other = vb.Pos_gle_overdamped(bf.PolynomialFeatures(2, remove_const=False).fit(np.array([[-1.0], [1.0]])), 0.02)
e.to_gfpe(other, "w")
x, v = xs[0]["x"].to_numpy(), xs[0]["v"].to_numpy()
assert np.allclose(xs[0]["w"].to_numpy(), np.concatenate((0 * v, v, 2 * x * v), axis=1))
""")
bug("S21","C23","gle_integrate.py",("colored_noise = self.eigvect @ np.diag(np.sqrt(self.eigvals)) @ white_noise","colored_noise = self.eigvect.T @ (np.sqrt(self.eigvals) * white_noise)") if False else ("            cov_mat[:, n] = kernel_sym[N_size - n - 1 : -n]","            cov_mat[:, n] = np.concatenate((kernel[1 : n + 1], kernel[: N_size - n]))"),
 "a covariance matrix of three frames or more","the part of the covariance before the diagonal is in the wrong order, and the backward kernel is not used","""
from scipy.linalg import toeplitz
k = np.exp(-0.3 * np.arange(8))
assert np.allclose(vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(k), toeplitz(k))
""")
bug("S22","C25","gle_integrate.py",("k4x, k4v = self._f_rk(x + k3x * self.dt, v + k3v * self.dt, rmi, fr, 0.0, last_E, last_rmi)","k4x, k4v = self._f_rk(x + k3x * self.dt, v + k3v * self.dt, rmi, fr, 0.5, last_E, last_rmi)"),
 "a memory that changes during a step: only the order of convergence tells","the last stage of the Runge-Kutta step uses the memory of the middle of the step, so that the scheme is of first order","""
from scipy.linalg import expm
b = bf.LinearFeatures().fit(np.array([[-1.0], [1.0]]))
g = np.array([[0, -1.0, 0], [1, 0, 2.0], [0, -1, -1.0]])
errs = []
for n in (51, 101):
    dt = 3.0 / (n - 1)
    t = np.arange(n) * dt
    it = vb.Integrator_gle(None, verbose=False, basis=b, force_coeff=np.array([[-1.0]]), kernel=2.0 * np.exp(-t), dt=dt)
    x0 = xr.Dataset({"x": (["time", "dim_x"], [[1.0]]), "v": (["time", "dim_x"], [[0.5]])}, coords={"time": [0.0]})
    tr = it.run(n, x0, set_noise_to_zero=True)
    ex = np.array([np.array([1.0, 0.5, 0.0]) @ expm(g * s) for s in t])
    errs.append(np.abs(tr["x"].to_numpy()[:, 0] - ex[:, 0]).max())
assert errs[1] < 0.35 * errs[0], errs
""")
bug("S23","C26","fit_prony.py",("dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb < 0))","dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb) < -0.5)"),
 "an alternating exponential that decays fast (multiplier between -0.5 and 0)","the alternating term is not duplicated, so that the series does not reproduce the data","""
n = np.arange(15)
y = 0.6 * 0.8**n + 0.4 * (-0.4) ** n
y0, A = vb.prony_fit_times_serie(y, 0.1, N_keep=2)
assert np.allclose(vb.prony_series_eval(n * 0.1, y0, A), y, atol=1e-6)
""")
bug("S24","C27","fit_memory.py",("p0 = [data[0], 0.1 / np.sqrt((times[1] - times[0]))]\n    elif type in [\"prony\"]:","p0 = [data[0], 0.1 / (times[1] - times[0])]\n    elif type in [\"prony\"]:"),
 "","",'')
bug("S25","C13","gle_estimation.py",("kernel = (9 * ker[1::3][:n_ker] - ker_3[:n_ker]) / 8","kernel = (4 * ker[1::3][:n_ker] - ker_3[:n_ker]) / 3"),
 "the midpoint method with Richardson extrapolation: the weights are those of a halved step","the leading error is not cancelled although the kernel is close to the right one","""
import functools
A = 1.3
# C' = -int K C  with K = A exp(-t): closed form by the 2x2 system
from scipy.linalg import expm
def kernel(n):
    dt = 3.0 / (n - 1)
    t = np.arange(n) * dt
    G = np.array([[0.0, -1.0], [A, -1.0]])
    C = np.array([expm(G * s)[0, 0] for s in t])
    D = np.array([(G @ expm(G * s))[0, 0] for s in t])  # C'
    x = np.linspace(0, 1, n + 2)[:, None]
    xva = vb.compute_va(vb.xframe(x, np.arange(n + 2) * dt))
    e = vb.Estimator_gle(xva, vb.Pos_gle_const_kernel, bf.LinearFeatures(), trunc=1e9, saveall=False, verbose=False)
    e.model.trunc_ind = n
    e.bkbkcorrw = xr.DataArray(C[None, None], dims=("dim_basis'", "dim_basis", "time_trunc"))
    e.bkdxcorrw = xr.DataArray(D[None, None], dims=("dim_basis", "dim_x", "time_trunc"))
    e.dotbkbkcorrw = e.dotbkdxcorrw = None
    k = e.compute_kernel(method="midpoint_w_richardson").kernel
    return np.abs(k.to_numpy()[:, 0, 0] - A * np.exp(-k["time_kernel"].to_numpy())).max()
a, b = kernel(61), kernel(121)
assert b < 2e-4 and b < a / 5, (a, b)
""")
bug("S26","C14","gle_estimation.py",("        self.trunc_ind = (self.xva_list[0][\"time\"] <= trunc).sum().data","        self.trunc_ind = int(trunc / (self.xva_list[0][\"time\"].data[1] - self.xva_list[0][\"time\"].data[0])) + 1"),
 "times whose step is not exact in floating point or that do not start at zero","the number of frames kept depends on rounding","""
""")
bug("S27","C08","__init__.py",("        mean_val += ds_groups.sum().fillna(0)\n        count_bins += ds_groups.count().fillna(0)","        mean_val += ds_groups.mean().fillna(0) * ds_groups.count().fillna(0).max()\n        count_bins += ds_groups.count().fillna(0)"),
 "","","")
bug("S28","C08","__init__.py",("        min_x = np.min([xva[\"x\"].min(\"time\") for xva in xva_list])\n        max_x = np.max([xva[\"x\"].max(\"time\") for xva in xva_list])","        min_x = np.min([xva[\"x\"].min(\"time\") for xva in xva_list[:2]])\n        max_x = np.max([xva[\"x\"].max(\"time\") for xva in xva_list[:2]])"),
 "three trajectories or more, the third one visiting other places","the samples of the other trajectories outside the range of the first two are lost","""
rng = np.random.default_rng(0)
xs = [vb.compute_va(vb.xframe(c + rng.normal(size=200), np.arange(200) * 0.1)) for c in (0.0, 0.5, 4.0)]
x, p = vb.compute_1d_fe(xs, bins=20, hist=True)
allx = np.concatenate([s["x"].to_numpy().ravel() for s in xs])
assert x.max() > allx.max() - 1.0
""")
bug("S29","C10","models.py",("            return bk, xva[\"v\"].rename({\"dim_x\": \"dim_basis\"}), xva[\"a\"].rename({\"dim_x\": \"dim_basis\"})","            return bk, xva[\"v\"].rename({\"dim_x\": \"dim_basis\"}), xva[self.L_obs].rename({xva[self.L_obs].dims[1]: \"dim_basis\"})") ,
 "","","")
bug("S30","C14","models.py",("            rank_tol = S.max(axis=-1, keepdims=True) * max(B0.shape[-2:]) * np.finfo(S.dtype).eps","            rank_tol = max(B0.shape[-2:]) * np.finfo(S.dtype).eps"),
 "a basis that is not of full rank and data in a unit that makes the correlations large (or small)","the rank of the basis is decided with an absolute tolerance, so that it depends on the unit of time",TRJ+"""
xs = trajs([120], dt=0.02)
k = []
for dt in (1.0, 1e-6):
    x = xs[0]["x"].to_numpy()
    ds = vb.compute_va(vb.xframe(x, np.arange(len(x)) * dt))
    e = est(ds, vb.Pos_gle, bf.PolynomialFeatures(2, remove_const=False), trunc=10 * dt)
    e.compute_mean_force()
    e.compute_corrs()
    m = e.compute_kernel()
    k.append(m.kernel_eval(np.linspace(-0.5, 0.5, 5)[:, None]).to_numpy() * dt**2)
assert np.allclose(k[0], k[1], rtol=1e-6, atol=1e-8 * np.abs(k[0]).max())
""")
BUGS=[b for b in BUGS if b['demo'].strip() and b['what']]
