From f474840664544b1571590ca02c7bb42ebc927c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 01/45] fix: FeaturesCombiner.deriv keeps the derivatives of
 every combined basis

---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a0c2ba0..e1f1645 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -256,8 +256,8 @@ class FeaturesCombiner(TransformerMixin):
         grad = self.basis_set[0].deriv(X, deriv_order=deriv_order)
         for b in self.basis_set[1:]:
             # print(grad.shape, b.deriv(X, deriv_order=deriv_order).shape)
-            features = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
-        return features
+            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
+        return grad
 
     def hessian(self, X):
         return self.deriv(X, deriv_order=2)
-- 
2.43.0


From 1d941f3bd5492aa85c44001c945927993a06de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 02/45] fix: changing const_removed on FeaturesCombiner reaches
 the combined bases

---
 VolterraBasis/basis/_basis_features.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index e1f1645..39ea125 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -235,7 +235,15 @@ class FeaturesCombiner(TransformerMixin):
 
     def __init__(self, *basis):
         self.basis_set = basis
-        self.const_removed = np.any([b.const_removed for b in self.basis_set])  # Check if one of the basis set have the constant removed
+
+    @property
+    def const_removed(self):
+        return bool(np.any([b.const_removed for b in self.basis_set]))  # Check if one of the basis set have the constant removed
+
+    @const_removed.setter
+    def const_removed(self, value):
+        for b in self.basis_set:
+            b.const_removed = value
 
     def fit(self, describe_result):
         if isinstance(describe_result, np.ndarray):
-- 
2.43.0


From 9d99c0a3e0ecc9c934ae346cc21f95127a38e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 03/45] fix: LinearFeatures.antiderivative integrates the
 centered function and honours order

---
 VolterraBasis/basis/_basis_features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index 39ea125..a49a5b6 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -4,6 +4,7 @@ This the main estimator module
 import numpy as np
 
 import scipy.interpolate
+import scipy.special
 import scipy.stats
 from ._data_describe import quick_describe, minimal_describe
 
@@ -46,7 +47,7 @@ class LinearFeatures(TransformerMixin):
         return self.deriv(X, deriv_order=2)
 
     def antiderivative(self, X, order=1):
-        return 0.5 * np.power(X, 2)
+        return np.power(X - self.mean_, order + 1) / scipy.special.factorial(order + 1)
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From 00350d53dc4705e242ee54bf69ba6cd21acd802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 04/45] fix: FourierFeatures.deriv returns the requested order
 above 2

---
 VolterraBasis/basis/_basis_features.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a49a5b6..0c9c4cd 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -148,6 +148,13 @@ class FourierFeatures(TransformerMixin):
     def deriv(self, X, deriv_order=1):
         if deriv_order == 2:
             return self.hessian(X)
+        elif deriv_order > 2:  # Differentiating twice multiply by -w**2
+            freq = self.freq * np.repeat((np.arange(self.order) + 1) // 2, X.shape[1])[int(self.const_removed) * X.shape[1] :]
+            low = self.deriv(X, deriv_order=deriv_order - 2)
+            features = np.zeros(low.shape[:2] + (X.shape[1],) * deriv_order)
+            for i in range(X.shape[1]):
+                features[(Ellipsis,) + (i,) * deriv_order] = -(freq**2) * low[(Ellipsis,) + (i,) * (deriv_order - 2)]
+            return features
         nsamples, dim = X.shape
         with_const = int(self.const_removed)
         features = np.zeros((nsamples, dim * (self.order - with_const)) + (dim,) * deriv_order)
-- 
2.43.0


From c69fac8f8262a5a23b29b9918a9292ece89436b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 05/45] fix: TensorialBasis2D with a single basis fits each
 direction separately

---
 VolterraBasis/basis/_multidim_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_multidim_basis.py b/VolterraBasis/basis/_multidim_basis.py
index 9355d4a..6da807f 100644
--- a/VolterraBasis/basis/_multidim_basis.py
+++ b/VolterraBasis/basis/_multidim_basis.py
@@ -1,6 +1,7 @@
 """
 This the main estimator module
 """
+import copy
 import numpy as np
 import scipy.stats
 from sklearn.base import TransformerMixin
@@ -16,7 +17,7 @@ class TensorialBasis2D(TransformerMixin):
         """Take two of basis"""
         self.b1 = b1
         if b2 is None:
-            self.b2 = b1
+            self.b2 = copy.deepcopy(b1)  # Each direction is fitted on its own coordinate
         else:
             self.b2 = b2
         # Force rank projection
-- 
2.43.0


From b89e723e1a6a621071ca1ba065f2e2336fdea320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 06/45] fix: correlation_direct_ND computes all the cross
 correlations when b is not given

---
 VolterraBasis/correlation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index 9b4eaed..71e2c0e 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -63,10 +63,12 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
-    if b is None:
-        b = a
+    if b is None:  # Same convention than the fft version
+        a, b = a[np.newaxis, ...], a[:, np.newaxis, ...]
+        res = np.zeros((b.shape[0], a.shape[1], len_trunc))
+    else:
+        res = np.zeros((a.shape[0], b.shape[0], len_trunc))
     # TODO: vérifier le type de l'array a et créer un array vide du même type
-    res = np.zeros((a.shape[0], b.shape[0], len_trunc))
     res[:, :, 0] = (a * b).sum(axis=-1) / len_dat
     for n in range(1, len_trunc):
         res[:, :, n] = (a[..., :-n] * b[..., n:]).sum(axis=-1) / (len_dat - n)
-- 
2.43.0


From 38d32756b85d6675585e5e405d4f466b47c6e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 07/45] fix: compute_noise does not sum the mean force over the
 dimensions

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 249959c..0af3fdf 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -159,7 +159,7 @@ class ModelBase(object):
         E_force, E, _ = self.basis_vector(xva)
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis", "dim_x"])
+        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])
         if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
             memory = memory_rect(self.kernel[:trunc_kernel], E, dt)
         elif self.method == "trapz" or self.method == "second_kind_trapz":
-- 
2.43.0


From cb4e7f1aa08fdf0d9e88af589706417da88ccc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 08/45] fix: compute_gram_kernel works with projection on the
 range of the basis

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a25d0be..7e4a650 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -211,7 +211,7 @@ class Estimator_gle(object):
             print("Calculate kernel gram...")
         self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.gram_kernel, self.model.P_range)
+            self.model.gram_kernel = xr.DataArray(np.einsum("lj,jk,mk->lm", self.model.P_range, self.model.gram_kernel, self.model.P_range), dims=self.model.gram_kernel.dims)
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From 4ef7810c822e4681430f4e39ef80cf39243e2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 09/45] fix: prefix is used for the name of the saved files

---
 VolterraBasis/gle_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 7e4a650..73690da 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -56,8 +56,8 @@ class Estimator_gle(object):
         self.verbose = verbose
 
         # filenames
-        self.corrsfile = "corrs.nc"
-        self.kernelfile = "kernel.nc"
+        self.corrsfile = self.prefix + "corrs.nc"
+        self.kernelfile = self.prefix + "kernel.nc"
 
         self.data_describe = None
 
-- 
2.43.0


From 4d388d5272e51e037e04e594d6447b540ad7ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 10/45] fix: compute_corrs can save its result without second
 order method

---
 VolterraBasis/gle_estimation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 73690da..ccc87a0 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -284,7 +284,10 @@ class Estimator_gle(object):
             if isinstance(self.dotbkbkcorrw, xr.DataArray):
                 self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
         if self.saveall:
-            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
+            corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
+            if isinstance(self.dotbkbkcorrw, xr.DataArray):  # Otherwise only the first time of the derivative correlations is known
+                corrs.update({"dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw})
+            xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
-- 
2.43.0


From 3972076354ec3d9b56b5cc3da892622bc946dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 11/45] fix: solve_ide_trapz_stab reads the memory along the
 time axis

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index f99caa5..b9e73a8 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -477,7 +477,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
 
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
-    call trapz_integral(memory,dt,max_len, E(i-max_len:i,:,:),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From 1dfd2ee518f65525afd73f8317bd9309a76fbb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 12/45] fix: laplace_transform_kernel uses the time of the
 kernel

---
 VolterraBasis/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 0af3fdf..dd56d5e 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -358,8 +358,9 @@ class ModelBase(object):
         # mintimelenght = self.trunc_ind * dt
         s_range = np.linspace(s_start, s_end, n_points)
         laplace = np.zeros((n_points, self.kernel.shape[1], self.kernel.shape[2]))
+        time = self.kernel["time_kernel"].to_numpy()
         for n, s in enumerate(s_range):
-            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time"][:, 0]), self.kernel), self.kernel["time"][:, 0], axis=0)
+            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * time), self.kernel), time, axis=0)
         return s_range, laplace
 
     def save_model(self):
-- 
2.43.0


From 3e65028eeaa515447c73840c2b6b702f40be3106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 13/45] fix: load_model restores everything saved by save_model
 and leaves the dataset untouched

---
 VolterraBasis/models.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index dd56d5e..afe8c23 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -376,6 +376,9 @@ class ModelBase(object):
         for key, dat in self.__dict__.items():
             if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
                 if dat is not None:
+                    dim_name = {"inv_mass_coeff": "dim_basis_mass", "gram_kernel": "dim_basis_gram"}.get(key)  # Their size can differ from the one of the kernel
+                    if dim_name is not None:
+                        dat = dat.rename({name: name.replace("dim_basis", dim_name) for name in dat.dims})
                     coeffs.update({key: dat})
 
         return coeffs
@@ -387,14 +390,21 @@ class ModelBase(object):
         """
         # A partir des attibuts du DataSet construire un dictionnaire des arguments à donner
         # kwargs = .. dim_x, dim_obs, trunc_ind, L_obs, describe_data
-        cls_attrs = coeffs.attrs
+        cls_attrs = dict(coeffs.attrs)
         for key, value in kwargs.items():
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force"]:
+        for key in ["force_coeff", "kernel", "P_range", "gram_force", "eff_mass", "inv_mass_coeff", "gram_kernel"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        if "rank_projection" in coeffs:
+            model.rank_projection = bool(coeffs["rank_projection"])
+        if "method" in coeffs:
+            model.method = str(coeffs["method"].values)
+        for key, dim_name in [("inv_mass_coeff", "dim_basis_mass"), ("gram_kernel", "dim_basis_gram")]:
+            if getattr(model, key) is not None:
+                setattr(model, key, getattr(model, key).rename({name: name.replace(dim_name, "dim_basis") for name in getattr(model, key).dims}))
         if model.force_coeff is not None:
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
-- 
2.43.0


From 4f77b50ce3b3656966ccb3a847892b91b8996ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 14/45] fix: coefficients can be given as plain array to
 force_eval, pmf_eval and kernel_eval

---
 VolterraBasis/models.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index afe8c23..946418b 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -20,6 +20,13 @@ def _convert_input_array_for_evaluation(array, dim_x):
         return xr.Dataset({"x": (["time", "dim_x"], x)})
 
 
+def _convert_coeffs(coeffs, dims):
+    """
+    Give names to the dimensions of coefficients provided as plain array
+    """
+    return coeffs if isinstance(coeffs, xr.DataArray) else xr.DataArray(np.asarray(coeffs), dims=dims)
+
+
 def matmulPrange(P_range, E):
     """
     Reduce basis size when needed
@@ -219,7 +226,7 @@ class ModelBase(object):
             if coeffs.shape != (self.N_basis_elt_force, self.dim_obs):
                 warnings.warn("Wrong shape of the coefficients. Get {} but expect {}.".format(coeffs.shape, (self.N_basis_elt_force, self.dim_obs)))
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="force")
-        return xr.dot(E, coeffs).to_numpy()  # Return the force as array (nb of evalution point x dim_obs)
+        return xr.dot(E, _convert_coeffs(coeffs, ("dim_basis", "dim_x"))).to_numpy()  # Return the force as array (nb of evalution point x dim_obs)
 
     def pmf_eval(self, x, coeffs=None, kT=1.0, set_zero=True):
         """
@@ -242,7 +249,7 @@ class ModelBase(object):
         else:
             eff_mass = np.asarray(self.eff_mass)
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="pmf")
-        pmf = -1 * xr.dot(E, coeffs).values @ eff_mass / kT
+        pmf = -1 * xr.dot(E, _convert_coeffs(coeffs, ("dim_basis", "dim_x"))).values @ eff_mass / kT
         return pmf - float(set_zero) * np.min(pmf)
 
     def inv_mass_eval(self, x, coeffs=None, set_zero=True):
@@ -293,7 +300,7 @@ class ModelBase(object):
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="kernel")
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        return xr.dot(coeffs_ker, E.rename({"dim_x": "dim_x'"}))
+        return xr.dot(_convert_coeffs(coeffs_ker, self.kernel.dims), E.rename({"dim_x": "dim_x'"}))
 
     def evolve_volterra(self, G0, lenTraj, method="trapz", trunc_ind=None):
         """
@@ -547,7 +554,7 @@ class Pos_gle_with_friction(Pos_gle):
         else:
             eff_mass = np.asarray(self.eff_mass)
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="pmf")
-        pmf = -1 * xr.dot(E, coeffs).values @ eff_mass / kT
+        pmf = -1 * xr.dot(E, _convert_coeffs(coeffs, ("dim_basis", "dim_x"))).values @ eff_mass / kT
         return pmf - float(set_zero) * np.min(pmf)
 
 
-- 
2.43.0


From 21a979b0f19fc2892835aecb9fa0536788cb19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 15/45] fix: Integrator_gle accepts explicit coefficients
 without model and a truncated kernel

---
 VolterraBasis/gle_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 5b69dae..7757653 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -204,6 +204,7 @@ class Integrator_gle(object):
             if self.kernel.ndim == 1:
                 self.dim = 1
                 self.N_basis_elt_kernel = 1
+                self.kernel = self.kernel.reshape(-1, 1, 1)
             elif self.kernel.ndim == 2:
                 self.dim = self.kernel.shape[-1]
                 self.N_basis_elt_kernel = self.dim
@@ -223,7 +224,7 @@ class Integrator_gle(object):
 
         self.trunc_kernel = self.kernel.shape[0]
 
-        self.noise_generator = ColoredNoiseGenerator(kernel_noise, gle_model.kernel["time_kernel"].to_numpy(), rng=rng)
+        self.noise_generator = ColoredNoiseGenerator(kernel_noise, np.arange(self.trunc_kernel) * self.dt, rng=rng)
 
     def _copy_from_estimator(self, gle_model, trunc_kernel=None):
         """
-- 
2.43.0


From 1081e5fab613ce3eeb761f2ba3eb3cef1f362b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 16/45] fix: KarhunenLoeveNoiseGenerator generates noise with
 the requested covariance

---
 VolterraBasis/gle_integrate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 7757653..6f3d234 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -104,7 +104,8 @@ class KarhunenLoeveNoiseGenerator:
 
         self.lenght = np.min(kernel.shape)
 
-        self.eigvals, self.eigvect = np.linalg.eig(self.kernel)
+        self.eigvals, self.eigvect = np.linalg.eigh(self.kernel)  # Covariance matrix is symmetric
+        self.eigvals = np.maximum(self.eigvals, 0.0)  # Remove negative value due to rounding
 
     def generate(self, size=None):
         if size is None:
@@ -115,7 +116,7 @@ class KarhunenLoeveNoiseGenerator:
             # TODO: Use periodic assumption
         white_noise = self.rng(size=self.lenght)
         colored_noise = self.eigvect @ np.diag(np.sqrt(self.eigvals)) @ white_noise
-        return colored_noise[:size] * np.sqrt(self.dt)
+        return colored_noise[:size]
 
 
 class PosColoredNoiseGenerator:
-- 
2.43.0


From bc661911b24de9465922c7623f90eca739e40c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 17/45] fix: Prony filtering accepts N_keep at least as large
 as the Hankel matrix

---
 VolterraBasis/fit_prony.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index caadf4d..2246d1e 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -42,7 +42,7 @@ def ldl_hankel(y, n=None, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        thres = s_svd[N] if N < len(s_svd) else thres
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     # print("Prony: Singular values. Value lower than thres are considered zero.")
@@ -139,7 +139,7 @@ def prony_inspect_data(data, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        thres = s_svd[N] if N < len(s_svd) else thres
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     print("Prony: Singular values. Value lower than thres are considered zero.")
-- 
2.43.0


From 293fb4635e1784c87c99e737986d0794c9da4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 18/45] fix: flux_from_volterra evaluates the force and memory
 terms at the time of the correlation

---
 VolterraBasis/models.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 946418b..949a07c 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -339,16 +339,19 @@ class ModelBase(object):
             kernel = np.asarray(kernel)
         if trunc_ind is not None:
             kernel = kernel[:trunc_ind, :, :]
-        force_term = np.matmul(force_coeff, corrs_force)
-        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[1], kernel.shape[-1]))
+        force_term = np.matmul(force_coeff.T, corrs_force)
+        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[0], kernel.shape[-1]))
         for n in range(1, corrs_kernel.shape[-1]):
-            max_len = min(n, kernel.shape[0])
+            max_len = min(n, kernel.shape[0] - 1)
+            corrs_mem = corrs_kernel[:, :, n - max_len : n + 1]
+            kernel_mem = kernel[: max_len + 1, :, :]
+            end_point = self.dt * np.matmul(corrs_mem[:, :, 0], kernel_mem[-1, :, :])  # The integration routines leave out the last point
             if method == "rect":
-                res_int[n, :] = -1 * rect_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
-            elif method == "trapz":
-                res_int[n, :] = -1 * trapz_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * rect_integral(self.dt, corrs_mem, kernel_mem)
+            elif method == "trapz" or (method == "simpson" and max_len == 1):
+                res_int[n, :] = -1 * trapz_integral(self.dt, corrs_mem, kernel_mem) - 0.5 * end_point
             elif method == "simpson":
-                res_int[n, :] = -1 * simpson_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * simpson_integral(self.dt, corrs_mem, kernel_mem) - end_point / 3.0
 
         return force_term, res_int
 
-- 
2.43.0


From f4ad2b870a997a74526df478183a5a375c7b9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 19/45] fix: midpoint inversion uses the correlation at the end
 of each double step

---
 VolterraBasis/fkernel.f90       | 8 ++++----
 VolterraBasis/gle_estimation.py | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index b9e73a8..087e7a9 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -143,11 +143,11 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
 
   invB0=inv(2*dt*B(:,:,1)) ! Update this depending of integration rule
 
-  kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
+  kernel=0.
 
-  do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
-     call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
-     kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
+  do i=0,lenTraj/2-1 !! The last point is left to zero if it would need data after lenTraj
+     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
+     kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+2))
   end do
 
 
diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index ccc87a0..8d46c79 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -323,12 +323,13 @@ class Estimator_gle(object):
             kernel = kernel_first_kind_rect(self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
         elif method == "midpoint":  # Deal with not even data lenght
             kernel = kernel_first_kind_midpoint(self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
-            time_ker = time_ker[:-1:2]
+            time_ker = time_ker[1::2]
         elif method == "midpoint_w_richardson":
             ker = kernel_first_kind_midpoint(self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
             ker_3 = kernel_first_kind_midpoint(self.bkbkcorrw.to_numpy()[:, :, ::3], self.bkdxcorrw.to_numpy()[:, :, ::3], 3 * self.dt)
-            kernel = (9 * ker[::3][: ker_3.shape[0]] - ker_3) / 8
-            time_ker = time_ker[:-3:6]
+            n_ker = min(ker[1::3].shape[0], ker_3.shape[0])
+            kernel = (9 * ker[1::3][:n_ker] - ker_3[:n_ker]) / 8
+            time_ker = time_ker[3::6][:n_ker]
         elif method == "trapz":
             ker = kernel_first_kind_trapz(k0, self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
             kernel = 0.5 * (ker[1:-1, :, :] + 0.5 * (ker[:-2, :, :] + ker[2:, :, :]))  # Smoothing
-- 
2.43.0


From deffb4708758df594def15d8af0c8a676a8bc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 20/45] fix: periodic BSplineFeatures are periodic

---
 VolterraBasis/basis/_local_features.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_local_features.py b/VolterraBasis/basis/_local_features.py
index edb32fb..ac7cdf2 100644
--- a/VolterraBasis/basis/_local_features.py
+++ b/VolterraBasis/basis/_local_features.py
@@ -17,8 +17,12 @@ def _get_bspline_basis(knots, degree=3, periodic=False):
     knots, coeffs, degree = scipy.interpolate.splrep(knots, y_dummy, k=degree, per=periodic)
     ncoeffs = len(coeffs)
     bsplines = []
-    for ispline in range(nknots):
-        coeffs = np.asarray([1.0 if ispl == ispline else 0.0 for ispl in range(ncoeffs)])
+    nsplines = nknots - 1 if periodic else nknots  # First and last knots are the same point for periodic splines
+    for ispline in range(nsplines):
+        if periodic:  # Wrap the coefficients around the period
+            coeffs = np.asarray([1.0 if ispl % nsplines == ispline and ispl < nsplines + degree else 0.0 for ispl in range(ncoeffs)])
+        else:
+            coeffs = np.asarray([1.0 if ispl == ispline else 0.0 for ispl in range(ncoeffs)])
         bsplines.append((knots, coeffs, degree))
     return bsplines
 
-- 
2.43.0


From 7ac93a878b10a14aa5a1c8c3b8128e800262f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 21/45] fix: 1D element finder handles unsorted meshes and does
 not modify the trajectory

---
 VolterraBasis/basis/_fem_features.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cbae7d9..70573cd 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -19,10 +19,9 @@ class ElementFinder:
         self.dim = mesh.dim()
         # Transform mesh to triangular version if needed
         if self.dim == 1:
-            self.max_point = np.max(mesh.p)  # To avoid strict < in np.digitize
             ix = np.argsort(mesh.p)
             self.bins = mesh.p[0, ix[0]]
-            self.bins_idx = mesh.t[0]
+            self.bins_idx = np.argsort(ix[0])[mesh.t].min(axis=0)  # Position of the left vertex among the sorted vertices
             self.find = self.find_element_1D
         # elif self.dim == 2:
         #     self.find = self.find_element_2D
@@ -40,9 +39,8 @@ class ElementFinder:
         """
         Assuming X is nsamples x 1
         """
-        maxix = X[:, 0] == self.max_point
-        X[maxix, 0] = X[maxix, 0] - 1e-10  # special case in np.digitize
-        return np.argmax((np.digitize(X[:, 0], self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        left = np.clip(np.digitize(X[:, 0], self.bins), 1, len(self.bins) - 1) - 1  # The last point belong to the last element
+        return np.argmax(left[:, None] == self.bins_idx, axis=1)
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
-- 
2.43.0


From 12d096f8093e98df9d63b088fa50e07a220a61a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 22/45] fix: element finder finds the element containing the
 point in 2D and 3D meshes

---
 VolterraBasis/basis/_fem_features.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 70573cd..2f63337 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -46,13 +46,17 @@ class ElementFinder:
         return self.mesh_finder(X[:, 0], X[:, 1])
 
     def find_element_ND(self, X, _search_all=False):
-        tree_query = self.tree.query(X, 5)[1]
+        tree_query = self.tree.query(X, np.arange(1, min(5, self.tree.n) + 1))[1]
         element_inds = np.empty((X.shape[0],), dtype=int)
         for n, point in enumerate(X):  # Try to avoid loop
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
-            element_inds[n] = i_e[np.argmax(inside, axis=0)]
+            if not np.any(inside):  # The element is not among the closest ones
+                i_e = np.arange(self.tree.n)
+                X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
+                inside = np.minimum(X_loc.min(axis=0), 1 - X_loc.sum(axis=0))
+            element_inds[n] = i_e[np.argmax(inside)]
         return element_inds
 
     def inside_2D(self, X):  # Do something more general from Refdom?
@@ -61,7 +65,7 @@ class ElementFinder:
         """
         return (X[0] >= -np.finfo(X.dtype).eps) * (X[1] >= -np.finfo(X.dtype).eps) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)
 
-    def inside_3D(X):
+    def inside_3D(self, X):
         """
         Say which point are inside the element
         """
-- 
2.43.0


From 762b4a89c79144586a36c3537c4887bf4e81b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 23/45] fix: FEMScalarFeatures.deriv puts the components of the
 gradient at the right place

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 2f63337..410f2f2 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -125,7 +125,7 @@ class FEMScalarFeatures(TransformerMixin):
         pts = self.basis_fem.mapping.invF(x[:, :, np.newaxis], tind=cells)
         phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
         return sparse.COO(
-            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
+            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(np.moveaxis(phis, -1, 0)), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
         ).todense()  # .todense(): Temporary workaround to the absence if einsum in sparse library
 
     def hessian(self, X):  # Only for Elementglobal
-- 
2.43.0


From 461ce7c3c271aa0112d27439252611a20c3f8e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 24/45] fix: inv_mass_eval evaluates the computed coefficients
 on the basis they have been estimated on

---
 VolterraBasis/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 949a07c..9973ae3 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -261,7 +261,8 @@ class ModelBase(object):
         if coeffs is None:
             if self.inv_mass_coeff is None:
                 raise Exception("Effective mass has not been computed.")
-            coeffs = self.inv_mass_coeff
+            E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="kernel")  # Basis on which the coefficients have been computed
+            return xr.dot(E, self.inv_mass_coeff, dims=["dim_basis"]).to_numpy()
         else:  # Check shape
             if coeffs.shape != (self.N_basis_elt_force, self.dim_x, self.dim_x):
                 raise Exception("Wrong shape of the coefficients. Get {} but expect {}.".format(coeffs.shape, (self.N_basis_elt_force, self.dim_x, self.dim_x)))
-- 
2.43.0


From 3864a1089fb9fe0bf33b2fd5cfa59cbfd6101ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 25/45] fix: memory_trapz gives half weight to the end point of
 a truncated kernel

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 087e7a9..4bce263 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -326,7 +326,7 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-    do j=1,min(i-1,len_mem)
+    do j=1,min(i,len_mem)-1
        memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))
     end do
    memory(i,:)=memory(i,:)-0.5*dt*matmul(E(i-min(i,len_mem),:),kernel(min(i,len_mem),:,:))
-- 
2.43.0


From 599dbcccec5444bac4122a006715304d127daa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 26/45] fix: Pos_gle_hybrid does not sum the derivative of the
 basis over time

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 9973ae3..7cb005d 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -651,7 +651,7 @@ class Pos_gle_hybrid(Pos_gle):
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
-- 
2.43.0


From 41bb001ae58d84c7401be550e2c1b09c9b0d89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:44 +0000
Subject: [PATCH 27/45] fix: models loaded from a netCDF file have plain
 integer dimensions

---
 VolterraBasis/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 7cb005d..c562c41 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -60,8 +60,8 @@ class ModelBase(object):
         """
         self.L_obs = L_obs
 
-        self.dim_x = dim_x
-        self.dim_obs = dim_obs
+        self.dim_x = int(dim_x)  # numpy integer when read from a file
+        self.dim_obs = int(dim_obs)
 
         self.dt = dt
         self.trunc_ind = int(trunc_ind)
-- 
2.43.0


From ef44c2c72bebd36c69d4ebfc45f592a9fbd08230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 28/45] fix: Prony fit handles real negative eigenvalues

---
 VolterraBasis/fit_prony.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 2246d1e..e3f39e9 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -104,7 +104,7 @@ def clean_eigenvalues(J, dt, remove=True, debug=False):
     # We need to duplicate real eigenvalue with negative value
     dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb < 0))
     n_dupl = len(lamb[dupl])
-    log_lamp = np.log(lamb) / dt
+    log_lamp = np.log(lamb.astype(complex)) / dt  # logarithm of negative eigenvalues is complex
     # add eigenvector
     new_vect = np.zeros((len(lamb) + n_dupl, len(lamb) + n_dupl), dtype=complex)
     new_vect[: len(lamb), : len(lamb)] = vect
-- 
2.43.0


From 967cfc61f8c6282237f7c2834db4fbf0b1151e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:35 +0000
Subject: [PATCH 29/45] fix: a singular matrix in the native routines ended the
 interpreter

---
 VolterraBasis/fkernel.f90 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 4bce263..146ad80 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -10,6 +10,7 @@ contains
 ! Returns the inverse of a matrix calculated by finding the LU
 ! decomposition.  Depends on LAPACK.
 function inv(A) result(Ainv)
+  use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
   implicit none
   double precision,intent(in) :: A(:,:)
   double precision            :: Ainv(size(A,1),size(A,2))
@@ -22,11 +23,14 @@ function inv(A) result(Ainv)
   ! SGETRF computes an LU factorization of a general M-by-N matrix A
   ! using partial pivoting with row interchanges.
   call DGETRF(n,n,Ainv,n,ipiv,info)
-  if (info.ne.0) stop 'Matrix is numerically singular!'
+  if (info.ne.0) then ! No inverse, and stopping would end the calling interpreter
+     Ainv = ieee_value(Ainv, ieee_quiet_nan)
+     return
+  end if
   ! SGETRI computes the inverse of a matrix using the LU factorization
   ! computed by SGETRF.
   call DGETRI(n,Ainv,n,ipiv,work,n,info)
-  if (info.ne.0) stop 'Matrix inversion failed!'
+  if (info.ne.0) Ainv = ieee_value(Ainv, ieee_quiet_nan)
 end function inv
 end module lapackMod
 
-- 
2.43.0


From 2b9773d2b95385d9754c3d0257a53dae66f5d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:35 +0000
Subject: [PATCH 30/45] fix: kernels from too few time steps read outside of
 the correlation functions

---
 VolterraBasis/gle_estimation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 8d46c79..bf1e57b 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -319,6 +319,9 @@ class Estimator_gle(object):
                 print("K0", k0)
                 # print("Gram", self.bkbkcorrw[0, :, :])
                 # print("Gram eigs", np.linalg.eigvals(self.bkbkcorrw[0, :, :]))
+        n_min = {"rect": 2, "rectangular": 2, "midpoint": 2, "midpoint_w_richardson": 4}.get(method, 1)
+        if self.bkbkcorrw.sizes["time_trunc"] < n_min:
+            raise ValueError("Need correlation functions of at least {} time steps to compute the kernel using {} method.".format(n_min, method))
         if method in ["rect", "rectangular"]:
             kernel = kernel_first_kind_rect(self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
         elif method == "midpoint":  # Deal with not even data lenght
-- 
2.43.0


From 89d617cf970512473520c63e1f010ac91195b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:35 +0000
Subject: [PATCH 31/45] fix: simpson flux with a memory of one time step read
 outside of the kernel

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index c562c41..eebca2b 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -349,7 +349,7 @@ class ModelBase(object):
             end_point = self.dt * np.matmul(corrs_mem[:, :, 0], kernel_mem[-1, :, :])  # The integration routines leave out the last point
             if method == "rect":
                 res_int[n, :] = -1 * rect_integral(self.dt, corrs_mem, kernel_mem)
-            elif method == "trapz" or (method == "simpson" and max_len == 1):
+            elif method == "trapz" or (method == "simpson" and max_len <= 1):
                 res_int[n, :] = -1 * trapz_integral(self.dt, corrs_mem, kernel_mem) - 0.5 * end_point
             elif method == "simpson":
                 res_int[n, :] = -1 * simpson_integral(self.dt, corrs_mem, kernel_mem) - end_point / 3.0
-- 
2.43.0


From 34f0a5518e6f343e802dcc320bc67d41872b7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 32/45] fix: a refused kernel computation changed the method of
 the kernel already there

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index bf1e57b..cabf007 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -308,7 +308,6 @@ class Estimator_gle(object):
             print("Compute memory kernel using {} method".format(method))
         time = np.arange(self.model.trunc_ind) * self.dt
         time_ker = time - time[0]  # Set zero time
-        self.model.method = method  # Save used method
         if self.verbose:
             print("Use dt:", self.dt)
         if k0 is None and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:  # Then we should compute initial value from time derivative at zero
@@ -350,6 +349,7 @@ class Estimator_gle(object):
             raise Exception("Method for volterra inversion is not in  {rectangular, midpoint, midpoint_w_richardson,trapz,second_kind_rect,second_kind_trapz}")
 
         self.model.kernel = xr.DataArray(kernel, dims=("time_kernel", "dim_basis", self.bkdxcorrw.dims[1]), coords={"time_kernel": time_ker})
+        self.model.method = method  # Save used method
         if self.saveall:  # TODO: change to xarray save
             xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.kernelfile)
         return self.model
-- 
2.43.0


From 5014aa3718754c5ce0432497ebb7313e7c8bf24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 33/45] fix: an unknown method for the flux silently gave zero

---
 VolterraBasis/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index eebca2b..9beb420 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -353,6 +353,8 @@ class ModelBase(object):
                 res_int[n, :] = -1 * trapz_integral(self.dt, corrs_mem, kernel_mem) - 0.5 * end_point
             elif method == "simpson":
                 res_int[n, :] = -1 * simpson_integral(self.dt, corrs_mem, kernel_mem) - end_point / 3.0
+            else:
+                raise ValueError("Cannot compute the flux with method {}".format(method))
 
         return force_term, res_int
 
-- 
2.43.0


From 317c2f3d9aeeb7b0e927fa91bc4d7b81718b0c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:24 +0000
Subject: [PATCH 34/45] fix: geometric line with a ratio of one divided by zero

---
 VolterraBasis/basis/_mesh_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_mesh_utils.py b/VolterraBasis/basis/_mesh_utils.py
index 439d147..512bf87 100644
--- a/VolterraBasis/basis/_mesh_utils.py
+++ b/VolterraBasis/basis/_mesh_utils.py
@@ -29,7 +29,7 @@ def non_uniform_line(x_start, x_end, num_elements, ratio):
     """
 
     # Create grid points between 0 and 1
-    h = (ratio - 1) / (ratio ** num_elements - 1)
+    h = 1 / np.sum(ratio ** np.arange(num_elements))
     x = np.append([0], h * np.cumsum(ratio ** np.arange(num_elements)))
 
     return x_start + x * (x_end - x_start)
-- 
2.43.0


From a23da3a47674f53cb7e33ab525746bc582f5a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:12 +0000
Subject: [PATCH 35/45] fix: refused correlations without any range were kept
 and used by later calls

---
 VolterraBasis/gle_estimation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index cabf007..d894825 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -268,12 +268,14 @@ class Estimator_gle(object):
             print("Calculate correlation functions...")
         if self.model.force_coeff is None:
             raise Exception("Mean force has not been computed.")
-        self.bkdxcorrw, self.dotbkdxcorrw, self.bkbkcorrw, self.dotbkbkcorrw = self.loop_over_trajs(self._correlation_ufunc, self.model, **kwargs)
-
+        corrs = self.loop_over_trajs(self._correlation_ufunc, self.model, **kwargs)
         if self.model.rank_projection:
             if self.verbose:
                 print("Projection on range space...")
-            P_range = self.model._set_range_projection(rank_tol, self.bkbkcorrw.isel(time_trunc=0))
+            P_range = self.model._set_range_projection(rank_tol, corrs[2].isel(time_trunc=0))
+
+        self.bkdxcorrw, self.dotbkdxcorrw, self.bkbkcorrw, self.dotbkbkcorrw = corrs
+        if self.model.rank_projection:
             P_range_tranpose = P_range.rename({"dim_basis_old": "dim_basis_old'", "dim_basis": "dim_basis'"})
             tempbkbkcorrw = xr.dot(P_range, self.bkbkcorrw.rename({"dim_basis": "dim_basis_old"}))
             self.bkbkcorrw = xr.dot(P_range_tranpose, tempbkbkcorrw.rename({"dim_basis'": "dim_basis_old'"}))
-- 
2.43.0


From 79238b68a4338d8ad3aeea172f68f4c3823cfd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:12 +0000
Subject: [PATCH 36/45] fix: gram matrix of the kernel asked before the
 projection was kept unprojected

---
 VolterraBasis/gle_estimation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index d894825..750ea5a 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -209,9 +209,12 @@ class Estimator_gle(object):
         """
         if self.verbose:
             print("Calculate kernel gram...")
-        self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
+        gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = xr.DataArray(np.einsum("lj,jk,mk->lm", self.model.P_range, self.model.gram_kernel, self.model.P_range), dims=self.model.gram_kernel.dims)
+            if self.model.P_range is None:
+                raise Exception("Need correlation functions to project the gram matrix of the kernel.")
+            gram_kernel = xr.DataArray(np.einsum("lj,jk,mk->lm", self.model.P_range, gram_kernel, self.model.P_range), dims=gram_kernel.dims)
+        self.model.gram_kernel = gram_kernel
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From 8f892ba66ab19795ab0798ff0ab6580a3282e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:25 +0000
Subject: [PATCH 37/45] fix: memory_trapz read a kernel of no frames

---
 VolterraBasis/fkernel.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 146ad80..0080e42 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -326,7 +326,8 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
   double precision,intent(in)::dt
   integer::i,j
 
-  memory(0,:)=0.
+  memory(:,:)=0.
+  if (len_mem < 0) return !! No memory, there is no kernel to read
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-- 
2.43.0


From 1201724501c60ae059570ae6b74e9046ede9ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:22 +0000
Subject: [PATCH 38/45] fix: truncation time counted from the time origin, not
 from the start of the trajectories

---
 VolterraBasis/gle_estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 750ea5a..80721cc 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -125,14 +125,15 @@ class Estimator_gle(object):
                     raise Exception("Please provide dataset that include {} as variable .".format(L_obs))
 
     def _compute_trunc_ind(self, trunc):
-        lastinds = np.array([xva["time"][-1] for xva in self.xva_list])
+        lastinds = np.array([xva["time"][-1] - xva["time"][0] for xva in self.xva_list])
         smallest = np.min(lastinds)
         if smallest < trunc:
             if self.verbose:
                 print("Warning: Found a trajectory shorter than " "the argument trunc. Override.")
             trunc = smallest
         # Find index of the time truncation
-        self.trunc_ind = (self.xva_list[0]["time"] <= trunc).sum().data
+        lags = self.xva_list[0]["time"] - self.xva_list[0]["time"].data[0]  # Trajectories can start at any time
+        self.trunc_ind = (lags <= trunc + 1e-6 * self.dt).sum().data
         if self.verbose:
             print("Trajectories are truncated at lenght {} for dynamic analysis".format(self.trunc_ind))
         return self.trunc_ind
-- 
2.43.0


From d0301a42c5a57e48c3e3a3efdcb309734adf0529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:51 +0000
Subject: [PATCH 39/45] fix: geometric mesh with an integer ratio no longer
 overflows

---
 VolterraBasis/basis/_mesh_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_mesh_utils.py b/VolterraBasis/basis/_mesh_utils.py
index 512bf87..015e334 100644
--- a/VolterraBasis/basis/_mesh_utils.py
+++ b/VolterraBasis/basis/_mesh_utils.py
@@ -29,8 +29,9 @@ def non_uniform_line(x_start, x_end, num_elements, ratio):
     """
 
     # Create grid points between 0 and 1
-    h = 1 / np.sum(ratio ** np.arange(num_elements))
-    x = np.append([0], h * np.cumsum(ratio ** np.arange(num_elements)))
+    lengths = float(ratio) ** np.arange(num_elements)
+    h = 1 / np.sum(lengths)
+    x = np.append([0], h * np.cumsum(lengths))
 
     return x_start + x * (x_end - x_start)
 
-- 
2.43.0


From d40fe33d6f15d425958527c34b8bdc98bd585f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:29 +0000
Subject: [PATCH 40/45] fix: Prony series evaluated at a single time

---
 VolterraBasis/fit_prony.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index e3f39e9..25781d7 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -189,7 +189,7 @@ def prony_series_eval(times, y0, A):
     A :
         Result of the prony fitting.
     """
-    times = np.asarray(times).squeeze()
+    times = np.asarray(times).ravel()
     nb_times = times.shape[0]
     fit = np.zeros((nb_times,))
     for i, t in enumerate(times.flatten()):  # TODO: Implement with linear system
@@ -236,13 +236,13 @@ def prony_series_kernel_eval(times, list_A):
     list_A:
         The result of fit_kernel
     """
-    times = np.asarray(times).squeeze()
+    times = np.asarray(times).ravel()
     nb_times = times.shape[0]
     dim_x = len(list_A)
     dim_basis = len(list_A[0])
     fit = np.zeros((nb_times, dim_basis, dim_x))
     for d in range(dim_x):
         for k in range(dim_basis):
-            for i, t in enumerate(times.squeeze()):
+            for i, t in enumerate(times):
                 fit[i, k, d] = list_A[d][k][0] * scipy.linalg.expm(t * list_A[d][k][1])[0, 0]
     return fit
-- 
2.43.0


From fb46d67dabbb111262b756cc6976f8e239b41f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:14 +0000
Subject: [PATCH 41/45] fix: Prony series of two terms overflows at long times

---
 VolterraBasis/fit_prony.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 25781d7..e112129 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -176,6 +176,15 @@ def prony_fit_times_serie(data, dt, thres=None, N_keep=None, remove=True):
     return data[0], A
 
 
+def expm_series(t, A):
+    """
+    Exponential of t * A, computed by steps since the closed form that scipy uses for two terms overflows at long time
+    """
+    n_steps = abs(t) * np.linalg.norm(A) / 100
+    n_steps = int(np.ceil(n_steps)) if 1 < n_steps < np.inf else 1
+    return np.linalg.matrix_power(scipy.linalg.expm(t / n_steps * A), n_steps)
+
+
 def prony_series_eval(times, y0, A):
     """
     Get series evaluated at times
@@ -193,7 +202,7 @@ def prony_series_eval(times, y0, A):
     nb_times = times.shape[0]
     fit = np.zeros((nb_times,))
     for i, t in enumerate(times.flatten()):  # TODO: Implement with linear system
-        fit[i] = y0 * scipy.linalg.expm(t * A)[0, 0]
+        fit[i] = y0 * expm_series(t, A)[0, 0]
     return fit
 
 
@@ -244,5 +253,5 @@ def prony_series_kernel_eval(times, list_A):
     for d in range(dim_x):
         for k in range(dim_basis):
             for i, t in enumerate(times):
-                fit[i, k, d] = list_A[d][k][0] * scipy.linalg.expm(t * list_A[d][k][1])[0, 0]
+                fit[i, k, d] = list_A[d][k][0] * expm_series(t, list_A[d][k][1])[0, 0]
     return fit
-- 
2.43.0


From ebbc335f5dc2a0679b1c3cf5615a9ec462c4510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 42/45] fix: mesh of integer data left data outside of its
 simplified hull

---
 VolterraBasis/basis/_mesh_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_mesh_utils.py b/VolterraBasis/basis/_mesh_utils.py
index 015e334..f234c61 100644
--- a/VolterraBasis/basis/_mesh_utils.py
+++ b/VolterraBasis/basis/_mesh_utils.py
@@ -123,7 +123,7 @@ def centroid_driven_mesh(data, bins=100, boundary_vertices=None, simplify_hull=0
     # We have to add the boundary, let's take the convex hull of the data if not defined
     if boundary_vertices is None:
         hull = ConvexHull(data)
-        boundary_vertices = data[hull.vertices]
+        boundary_vertices = np.asarray(data, dtype=float)[hull.vertices]  # The simplified hull has vertices between the data
         stop = simplify_hull > 0.0
         while stop:
             boundary_vertices, stop = remove_one_point(boundary_vertices, ratio_limit=simplify_hull, verbose=verbose)
-- 
2.43.0


From 080f197cbfcd88fa670f49a68528885da09f2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 43/45] fix: coloured noise has the requested covariance from
 the first frame, however long it is

---
 VolterraBasis/gle_integrate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 6f3d234..38a981c 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -56,11 +56,11 @@ class ColoredNoiseGenerator:
             self.sqk[:, d, d] = ift(sqk_ft, w, t_sym).real
 
     def generate(self, size):
-        colored_noise = np.empty((max(size, self.sqk.shape[0]), self.dim))
+        colored_noise = np.empty((size, self.dim))
         for d in range(self.dim):
-            white_noise = self.rng(size=size)
-            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="same")
-        return colored_noise[:size] * np.sqrt(self.dt)
+            white_noise = self.rng(size=size + self.sqk.shape[0] - 1)  # All the values that contribute to the first and last points
+            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="valid")
+        return colored_noise * np.sqrt(self.dt)
 
 
 class KarhunenLoeveNoiseGenerator:
-- 
2.43.0


From 197fdc909dba09baad26d39e2cb5665f1bbf647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 44/45] fix: second kind simpson kernel adds the diagonal of
 the equation where it should subtract it

---
 VolterraBasis/fkernel.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 0080e42..b0d87ff 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -280,11 +280,11 @@ subroutine kernel_second_kind_simpson(lenTraj, dim_basis,dim_x, kernel, k0, B0,
   double precision,dimension(dim_basis,dim_x)::num
   integer::i
 
-  invB0=inv(B0+0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule
+  invB0=inv(B0-0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule
 
   kernel(0,:,:)=k0
   kernel(1,:,:)=matmul(invB0,DxBdot(:,:,1)+0.5*dt*matmul(Bdot(:,:,1),kernel(0,:,:))) ! First point trapz rule
-  invB0=inv(B0+dt*Bdot(:,:,0)/3) ! Update this depending of integration rule
+  invB0=inv(B0-dt*Bdot(:,:,0)/3) ! Update this depending of integration rule
 
   do i=2,lenTraj !! for i in range(1, lenTraj):
      call simpson_integral(num,dt,i,Bdot(:,:,0:i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
-- 
2.43.0


From dec0fa9c3ab61ec98db791729bfa380e5447a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 45/45] fix: periodic SmoothIndicatorFeatures with a single
 boundary is not a partition of unity

---
 VolterraBasis/basis/_local_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_local_features.py b/VolterraBasis/basis/_local_features.py
index ac7cdf2..41e89d3 100644
--- a/VolterraBasis/basis/_local_features.py
+++ b/VolterraBasis/basis/_local_features.py
@@ -206,7 +206,7 @@ class SmoothIndicatorFeatures(TransformerMixin):
             occ_next = 1 - np.where(u < 0, 1, occ)
 
         if self.periodic:
-            features[:, 0:1] = np.where(occ_next > 0, occ_next, features[:, 0:1])
+            features[:, 0:1] += occ_next  # With a single boundary the two sides are the same indicator
         else:
             features[:, self.n_states : self.n_states + 1] = occ_next
         return features
@@ -237,7 +237,7 @@ class SmoothIndicatorFeatures(TransformerMixin):
             der_next = -np.where(u < 0, 0, der)
 
         if self.periodic:
-            features[(Ellipsis, slice(0, 1)) + (0,) * deriv_order] = np.where(der_next != 0.0, der_next, features[(Ellipsis, slice(0, 1)) + (0,) * deriv_order])
+            features[(Ellipsis, slice(0, 1)) + (0,) * deriv_order] += der_next
         else:
             features[(Ellipsis, slice(self.n_states, self.n_states + 1)) + (0,) * deriv_order] = der_next
         return features
-- 
2.43.0

