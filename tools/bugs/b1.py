BUGS=[]
def bug(id,prop,file,reps,needs,what,demo):
    BUGS.append(dict(id=id,prop=prop,file='VolterraBasis/'+file,reps=reps if isinstance(reps,list) else [reps],needs=needs,what=what,demo=demo))

TRJ = '''
def trajs(lens, dim=1, seed=0, dt=0.02):
    rng = np.random.default_rng(seed)
    out = []
    for n in lens:
        x = np.cumsum(0.1 * rng.normal(size=(n, dim)), axis=0)
        x = x - x.mean(axis=0)
        ds = vb.xframe(x, np.arange(n) * dt)
        out.append(vb.compute_va(ds))
    return out


def est(xs, model, basis, **kw):
    kw.setdefault("trunc", 0.2)
    return vb.Estimator_gle(xs, model, basis, saveall=False, verbose=False, **kw)
'''

bug("S01","C01","basis/_basis_features.py",("-(((n / 2) * self.freq) ** 2) * np.cos","-(((n / 2) ** 2) * self.freq) * np.cos"),
 "a Fourier basis whose base frequency is not 1, second derivatives of its cosines","the Hessian of the cosine functions has freq instead of freq**2",'''
b = bf.FourierFeatures(order=2, freq=0.5, remove_const=False).fit(np.array([[-1.0], [1.0]]))
x = np.linspace(-1, 1, 7)[:, None]
h = 1e-4
num = (b.deriv(x + h) - b.deriv(x - h)) / (2 * h)
assert np.allclose(b.hessian(x)[:, :, :, 0], num, atol=1e-6)
''')
bug("S02","C01","basis/_multidim_basis.py",('np.einsum("nk...,nl->nkl...", self.b1.deriv(X[:, slice(0, 1)], deriv_order=deriv_order), self.b2.basis(X[:, slice(1, 2)]))','np.einsum("nl,nk...->nkl...", self.b1.basis(X[:, slice(0, 1)]), self.b2.deriv(X[:, slice(1, 2)], deriv_order=deriv_order)) if self.b1 is self.b2 else np.einsum("nl...,nk->nkl...", self.b1.deriv(X[:, slice(0, 1)], deriv_order=deriv_order), self.b2.basis(X[:, slice(1, 2)]))') if False else ('return np.concatenate((np.concatenate((hess_2, hess_cross), axis=-2), np.concatenate((hess_cross, hess_1), axis=-2)), axis=-1)','return np.concatenate((np.concatenate((hess_1, hess_cross), axis=-2), np.concatenate((hess_cross, hess_2), axis=-2)), axis=-1)'),
 "the Hessian of a tensor product basis, off the diagonal x = y","the two diagonal entries of the Hessian are exchanged",'''
b = bf.TensorialBasis2D(bf.PolynomialFeatures(3)).fit(np.array([[-1.0, -1.0], [1.0, 1.0], [0.3, 0.1], [0.2, 0.5]]))
x = np.random.default_rng(0).uniform(-1, 1, size=(6, 2))
h = 1e-4
for d in range(2):
    e = np.zeros(2)
    e[d] = h
    num = (b.deriv(x + e) - b.deriv(x - e)) / (2 * h)
    assert np.allclose(b.hessian(x)[..., d], num, atol=1e-6)
''')
bug("S03","C02","basis/_basis_features.py",("np.sin(n / 2 * X * self.freq) / (np.sqrt(np.pi) * n / 2 * self.freq)","np.sin(n / 2 * X * self.freq) / (np.sqrt(np.pi) * n / (2 * self.freq))"),
 "a Fourier basis whose base frequency is not 1","the primitive of the cosines is multiplied by freq**2",'''
b = bf.FourierFeatures(order=2, freq=2.0).fit(np.array([[-1.0], [1.0]]))
x = np.linspace(-1, 1, 7)[:, None]
h = 1e-4
num = (b.antiderivative(x + h) - b.antiderivative(x - h)) / (2 * h)
assert np.allclose(b.basis(x), num, atol=1e-6)
''')
bug("S04","C03","basis/_data_describe.py",("(d1.mean * d1.nobs + d2.mean * d2.nobs) / (d1.nobs + d2.nobs)","(d1.mean + d2.mean) / 2"),
 "several trajectories of different lengths (or three or more), and a basis that uses the mean","the mean of merged descriptions is not the pooled mean, a centred basis is centred elsewhere",'''
a, b = np.random.default_rng(0).normal(size=(30, 1)), 3 + np.random.default_rng(1).normal(size=(7, 1))
d = bf.sum_describe(bf.minimal_describe(a), bf.minimal_describe(b))
assert np.allclose(d.mean, np.concatenate((a, b)).mean(axis=0))
''')
bug("S05","C04","basis/_local_features.py",[('''        for n in range(1, self.n_states):
            # right boundary
            a = min(self.states_boundary[n])  # This way there is no ambiguity on the definition
            b = max(self.states_boundary[n])
            u = (X - a) / (b - a)
            occ = self.boundary(u)
''','''        for n in range(1, self.n_states):
            # right boundary
            a, b = self.states_boundary[n]
            u = (X - a) / (b - a)
            occ = self.boundary(u)
''')],
 "a boundary other than the first one given in decreasing order","the second and next indicators are mirrored across their boundary: not one inside of their state",'''
b = bf.SmoothIndicatorFeatures([[-1.0, -0.5], [1.0, 0.5]]).fit(np.array([[-2.0], [2.0]]))
f = b.basis(np.array([[-1.5], [0.0], [1.5]]))
assert np.allclose(f, np.eye(3))
assert np.allclose(b.basis(np.linspace(-2, 2, 41)[:, None]).sum(axis=1), 1.0)
''')
bug("S06","C05","basis/_multidim_basis.py",("(describe_result.minmax[0][1:2], describe_result.minmax[1][1:2])","(describe_result.minmax[0][1:2], describe_result.minmax[1][0:1])"),
 "coordinates with different ranges and a basis that depends on the range","the second basis of a tensor product is fitted up to the maximum of the first coordinate",'''
x = np.random.default_rng(0).uniform(size=(50, 2)) * np.array([1.0, 5.0])
b = bf.TensorialBasis2D(bf.BSplineFeatures(5), bf.BSplineFeatures(6)).fit(x)
b1 = bf.BSplineFeatures(5).fit(x[:, :1])
b2 = bf.BSplineFeatures(6).fit(x[:, 1:])
assert np.allclose(b.basis(x), np.einsum("nk,nl->nkl", b1.basis(x[:, :1]), b2.basis(x[:, 1:])).reshape(50, -1))
''')
bug("S07","C06","basis/_fem_features.py",("return (X[0] >= 0) * (X[1] >= 0) * (X[2] >= 0) * (1 - X[0] - X[1] - X[2] >= -np.finfo(X.dtype).eps)","return (X[0] >= 0) * (X[1] >= 0) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)"),
 "a three dimensional mesh of several tetrahedra","the element found for a point of a 3D mesh may not contain it",'''
import skfem
m = skfem.MeshTet().refined(1)
b = bf.FEMScalarFeatures(skfem.CellBasis(m, skfem.ElementTetP1())).fit(None)
x = np.random.default_rng(0).uniform(0.02, 0.98, size=(60, 3))
f = b.basis(x)
assert f.min() > -1e-9 and np.allclose(f @ m.p.T, x)
''')
bug("S08","C07","__init__.py",[('''    if correct_jumps:  # TODO
        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''','''    if correct_jumps:  # TODO
        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - 2 * np.pi)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''')],
 "correct_jumps with a period other than 2 pi and a path that crosses the boundary downwards","velocities and accelerations around such a crossing are those of the wrapped path",'''
t = np.arange(60) * 0.1
x = 0.3 * np.cos(t) - 0.9 * t
w = (x + 0.5) % 1.0 - 0.5
a = vb.compute_va(vb.xframe(x, t))
b = vb.compute_va(vb.xframe(w, t), correct_jumps=True, jump=1.0, jump_thr=0.6)
assert np.allclose(a["v"], b["v"]) and np.allclose(a["a"], b["a"], atol=1e-6)
''')
bug("S09","C09","correlation.py",('fra = np.fft.fft(a, n=2 ** int(np.ceil((np.log(a.shape[-1]) / np.log(2))) + 1), axis=-1)  # Do we need that big of an array?','fra = np.fft.fft(a, n=2 ** int(np.round((np.log(a.shape[-1]) / np.log(2))) + 1), axis=-1)  # Do we need that big of an array?') if False else [('fra = np.fft.fft(a, n=2 ** int(np.ceil((np.log(a.shape[-1]) / np.log(2))) + 1), axis=-1)  # Do we need that big of an array?','fra = np.fft.fft(a, n=2 ** int(np.round(np.log2(a.shape[-1])) + 1), axis=-1)'),('frb = np.fft.fft(b, n=2 ** int(np.ceil((np.log(b.shape[-1]) / np.log(2))) + 1), axis=-1)','frb = np.fft.fft(b, n=2 ** int(np.round(np.log2(b.shape[-1])) + 1), axis=-1)')],
 "series a little longer than a power of two and a truncation close to the length of the series","the FFT is too short, so that the largest lags wrap around",'''
rng = np.random.default_rng(0)
for n in (20, 33, 37, 64):
    a, b = rng.normal(size=(1, 1, n)), rng.normal(size=(1, 1, n))
    c = vb.correlation_fft(a, b)[0, 0]
    ref = np.array([np.mean(a[0, 0, : n - k] * b[0, 0, k:]) for k in range(n)])
    assert np.allclose(c, ref)
''')
bug("S10","C10","gle_estimation.py",('''for weight, xva in zip(self.weights, self.xva_list))
        res = [0.0] * len(array_res[0])
        for weight, single_res in zip(self.weights, array_res):
            for i, arr in enumerate(single_res):
                res[i] += arr * weight / self.weightsum
''','''for weight, xva in zip(self.weights, self.xva_list))
        res = [0.0] * len(array_res[0])
        for single_res in array_res:
            for i, arr in enumerate(single_res):
                res[i] += arr / len(array_res)
'''),
 "several jobs and trajectories of different lengths","with n_jobs > 1 each trajectory has the same weight, whatever its length",TRJ+'''
xs = trajs([60, 23])
b = lambda: bf.PolynomialFeatures(2)
f1 = est(xs, vb.Pos_gle, b()).compute_mean_force().force_coeff
f2 = est(xs, vb.Pos_gle, b(), n_jobs=2).compute_mean_force().force_coeff
assert np.allclose(f1, f2)
''')
bug("S11","C11","models.py",('''            E = xr.dot(dbk, xva["v"], dims=["dim_x"])
            dE = xr.dot(dbk, xva["a"], dims=["dim_x"]) + xr.dot(ddbk, xva["v"], xva["v"].rename({"dim_x": "dim_x'"}), dims=["dim_x", "dim_x'"])
            return bk, E, dE''','''            E = xr.dot(dbk, xva["v"], dims=["dim_x"])
            dE = xr.dot(dbk, xva["a"], dims=["dim_x"]) + xr.dot(ddbk.rename({"dim_x'": "dim_y"}).sum("dim_y"), xva["v"] ** 2, dims=["dim_x"])
            return bk, E, dE'''),
 "a basis with mixed second derivatives (tensor product) in two dimensions","the time derivative of the memory basis uses v_i**2 for the mixed terms instead of v_i v_j",TRJ+'''
t = np.arange(400) * 0.002
x = np.stack((np.sin(t * 3), np.cos(2 * t)), axis=1)
xva = vb.compute_va(vb.xframe(x, t))
b = bf.TensorialBasis2D(bf.PolynomialFeatures(2))
e = est(xva, vb.Pos_gle, b)
_, E, dE = e.model.basis_vector(xva)
num = np.gradient(E.transpose("time", "dim_basis").to_numpy(), 0.002, axis=0)[5:-5]
assert np.allclose(dE.transpose("time", "dim_basis").to_numpy()[5:-5], num, atol=1e-2)
''')
bug("S12","C12","fkernel.f90",("invB0=inv(B0-0.5*dt*Bdot(:,:,0)) ! Update","invB0=inv(B0+0.5*dt*Bdot(:,:,0)) ! Update"),
 "the second kind trapezoidal method, with a derivative correlation that does not vanish at time zero","the kernel does not satisfy the trapezoidal discretisation of the second kind equation",'''
from VolterraBasis.fkernel import kernel_second_kind_trapz
rng = np.random.default_rng(0)
n, K, d, dt = 12, 2, 1, 0.1
B0 = np.eye(K)
Bd, D = rng.normal(size=(K, K, n)), rng.normal(size=(K, d, n))
k0 = D[:, :, 0]
k = kernel_second_kind_trapz(k0, B0, Bd, D, dt)
for i in range(1, n):
    s = sum((0.5 if j in (0, i) else 1.0) * dt * Bd[:, :, i - j] @ k[j] for j in range(i + 1))
    assert np.allclose(B0 @ k[i], D[:, :, i] + s)
''')
bug("S13","C15","fkernel.f90",("    do j=1,min(i,len_mem)-1\n","    do j=1,min(i-1,len_mem)\n"),
 "the trapezoidal rule and a kernel (or truncation) shorter than the trajectory","beyond the length of the kernel its last point is counted one and a half times",TRJ+'''
xs = trajs([80])[0]
e = est(xs, vb.Pos_gle_const_kernel, bf.LinearFeatures())
m = e.compute_mean_force()
m = e.compute_corrs()
m = e.compute_kernel(method="trapz")
K, v, dt = m.kernel.to_numpy()[:, 0, 0], xs["v"].to_numpy()[:, 0], 0.02
L = 5
t, noise, obs, force, mem = m.compute_noise(xs, trunc_kernel=L)
for i in (3, 20, 60):
    p = min(i, L - 1)
    s = sum((0.5 if j in (0, p) else 1.0) * dt * v[i - j] * K[j] for j in range(p + 1))
    assert abs(np.asarray(mem)[i, 0] + s) < 1e-9 * max(1.0, abs(s)), i
''')
bug("S14","C16","fkernel.f90",[("+ 0.5*dt * matmul(E(1 : lenTraj - n,:) , kernel(n, :,:)) &","+ 0.5*dt * matmul(E(1 : lenTraj - n,:) , kernel(n+1, :,:)) &"),("    +0.5*dt*matmul(E( : lenTraj - n-1,:) , kernel(n+1, :,:))","    +0.5*dt*matmul(E( : lenTraj - n-1,:) , kernel(n, :,:))")],
 "a kernel of a trapezoidal method","the kernel is shifted by one step at both ends of each interval when the noise is propagated",'''
from VolterraBasis.fkernel import corrs_trapz
rng = np.random.default_rng(0)
n, L, dt = 25, 6, 0.1
w, k, E = rng.normal(size=(n, 1)), rng.normal(size=(L, 1, 1)), rng.normal(size=(n, 1))
c = corrs_trapz(w, k, E, w, dt)[:, 0, 0]
for lag in range(L - 1):
    z = []
    for s in range(n - lag):
        m = 0.0
        for j in range(lag + 1):
            if lag:
                m += (0.5 if j in (0, lag) else 1.0) * dt * E[s + lag - j, 0] * k[j, 0, 0]
        z.append(w[s, 0] * (w[s + lag, 0] + m))
    assert abs(np.mean(z) - c[lag]) < 1e-10, lag
''')
bug("S15","C17","models.py",('return np.einsum("ikd,kl->ild", E, self.force_coeff[self.N_basis_elt :])','return np.einsum("ikd,kl->idl", E, self.force_coeff[self.N_basis_elt :])'),
 "friction_force_eval in two dimensions or more","observable and coordinate are exchanged in the friction",TRJ+'''
xs = trajs([200], dim=2)
m = est(xs, vb.Pos_gle_with_friction, bf.LinearFeatures()).compute_mean_force()
g = m.friction_force_eval(np.zeros((1, 2)))[0]
assert np.allclose(g, m.force_coeff.to_numpy()[2:].T)
''')
bug("S16","C18","models.py",("diff_mass = np.gradient(inv_mass) / dx","diff_mass = np.gradient(inv_mass)"),
 "pmf_num_int_eval with an effective mass that depends on the position","the correction from the position dependent mass is not per unit length",TRJ+'''
m = vb.Pos_gle_overdamped(bf.PolynomialFeatures(2, remove_const=False).fit(np.array([[-1.0], [1.0]])), 0.1)
m.force_coeff = xr.DataArray(np.array([[0.0], [-1.0], [0.0]]), dims=("dim_basis", "dim_x"))
m.inv_mass_coeff = xr.DataArray(np.array([1.0, 0.0, 0.5])[:, None, None], dims=("dim_basis", "dim_x", "dim_x'"))
x = np.linspace(-1, 1, 4001)
p = m.pmf_num_int_eval(x)
# grad = -(f - m') / m with m = 1 + x^2/2, f = -x: 2 x / (1 + x^2 / 2)
ref = 2 * np.log(1 + x**2 / 2)
assert np.allclose(p - p[2000], ref - ref[2000], atol=1e-2)
''')
bug("S17","C19","models.py",('''        cls_attrs = dict(coeffs.attrs)
        for key, value in kwargs.items():
            cls_attrs[key] = value''','''        cls_attrs = coeffs.attrs
        for key, value in kwargs.items():
            cls_attrs[key] = value''') if False else ('for key in ["force_coeff", "kernel", "P_range", "gram_force", "eff_mass", "inv_mass_coeff", "gram_kernel"]:','for key in ["force_coeff", "kernel", "gram_force", "eff_mass", "inv_mass_coeff", "gram_kernel"]:'),
 "a model whose basis is projected on its range","the projection is not read back",TRJ+'''
xs = trajs([80])
e = est(xs, vb.Pos_gle, bf.PolynomialFeatures(2, remove_const=False))
e.compute_mean_force()
e.compute_corrs()
m = e.compute_kernel()
b = bf.PolynomialFeatures(2, remove_const=False)
n = vb.Pos_gle.load_model(b, m.save_model())
x = np.linspace(-1, 1, 5)[:, None]
assert np.allclose(m.kernel_eval(x), n.kernel_eval(x))
''')
bug("S18","C20","fkernel.f90",('''    E(:,:,i) = max(E(:,:,i),0.)
    E(:,:,i) = E(:,:,i) / sum(E(:,:,i))''','''    E(:,:,i) = E(:,:,i) / sum(E(:,:,i))
    E(:,:,i) = max(E(:,:,i),0.)'''),
 "the stabilised method, when a component becomes negative","the result is clipped after it is normalised, hence not normalised",'''
m = vb.Pos_gle_overdamped(bf.PolynomialFeatures(1, remove_const=False).fit(np.array([[-1.0], [1.0]])), 0.1, dim_obs=2)
m.force_coeff = xr.DataArray(np.array([[-3.0, 1.0], [-4.0, 1.0]]), dims=("dim_basis", "dim_x"))
m.kernel = xr.DataArray(np.tile(0.3 * np.eye(2), (5, 1, 1)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(5) * 0.1})
t, E = m.evolve_volterra(np.array([[0.2, 0.8]]).T if False else np.array([[0.2, 0.8], [0.0, 0.0]]), 12, method="trapz_stab")
assert np.allclose(E.sum(axis=(0, 1)), 1.0) and E.min() >= 0
''')
bug("S19","C21","fkernel.f90",("(0.5*dt+h)*matmul(B(:,:,n-1),kernel(1,:,:)) ! Do trapz","(0.5*dt)*matmul(B(:,:,n-1),kernel(1,:,:)) ! Do trapz"),
 "Simpson's rule on an odd number of intervals (three or more)","the second point lacks a third of its weight",'''
from VolterraBasis.fkernel import simpson_integral
n = 7
dt = 1.0 / n
B, k = np.ones((1, 1, n + 1)), np.ones((n + 1, 1, 1))
assert abs(simpson_integral(dt, B, k)[0, 0] + dt / 3 - 1.0) < 1e-12
''')
bug("S20","C22","gle_estimation.py",("        self.model.rank_projection = False\n        for i in","        for i in"),
 "an overdamped model created with rank_projection","the memory of the Fokker-Planck setting is projected on the range of the basis, so that it is no longer expressed on the basis",TRJ+'''
import functools
class M(vb.Pos_gle_overdamped):
    def __init__(self, *a, **k):
        vb.Pos_gle_overdamped.__init__(self, *a, rank_projection=True, **k)
xs = trajs([80])
e = est(xs, M, bf.BSplineFeatures(5))
e.to_gfpe()
e.compute_mean_force()
e.compute_corrs()
m = e.compute_kernel()
assert np.allclose(m.kernel.to_numpy().sum(axis=2), 0.0, atol=1e-6)
assert not m.rank_projection
''')
bug("S21","C23","gle_integrate.py",[],"","","")
bug("S22","C25","gle_integrate.py",("loc_trunc = min(E.shape[0], self.trunc_kernel - 1)","loc_trunc = min(E.shape[0] - 1, self.trunc_kernel - 1)") if False else ("start_trunc = max(E.shape[0] - loc_trunc, 0)","start_trunc = max(E.shape[0] - self.trunc_kernel, 0)"),
 "a trajectory longer than the kernel","beyond the length of the kernel, the memory pairs frames and kernel off by one",'''
b = bf.LinearFeatures().fit(np.array([[-1.0], [1.0]]))
''')
BUGS=[b for b in BUGS if b['reps'] and b['id'] not in ('S22',)]
