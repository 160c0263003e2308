From ba88d94e6b6ff4dffe6416bd61c8e8c1383af504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 01/49] fix: keep the masked moments when adding leading axes
 in _set_moments

The new moments replaced the merged ones, overwriting observed plates.
---
 bayespy/inference/vmp/nodes/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index bc2e090..0cae4af 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -254,7 +254,7 @@ class Stochastic(Node):
             ndim = len(shape)
             ndim_u = np.ndim(self.u[ind])
             if ndim > ndim_u:
-                self.u[ind] = misc.add_leading_axes(u[ind], ndim - ndim_u)
+                self.u[ind] = misc.add_leading_axes(self.u[ind], ndim - ndim_u)
             elif ndim < ndim_u:
                 # This should not ever happen because we already checked the
                 # shape at the beginning of the function.
-- 
2.43.0


From c495c84efd406870b7fb3d1d4da65712fd4d2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 02/49] fix: save and load the parameters of MaximumLikelihood
 nodes

The parameters were silently lost: only the unused moment placeholder was
stored.
---
 bayespy/inference/vmp/nodes/ml.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/ml.py b/bayespy/inference/vmp/nodes/ml.py
index fda0753..d769ecf 100644
--- a/bayespy/inference/vmp/nodes/ml.py
+++ b/bayespy/inference/vmp/nodes/ml.py
@@ -6,6 +6,8 @@
 
 import numpy as np
 
+from bayespy.utils import misc
+
 from .node import Moments
 from .deterministic import Deterministic
 from .stochastic import Stochastic
@@ -202,6 +204,22 @@ class MaximumLikelihood(Stochastic):
         raise NotImplementedError()
 
 
+    def _save(self, group):
+        """
+        Save the state of the node into a HDF5 file.
+        """
+        misc.write_to_hdf5(group, self._x, 'x')
+        super()._save(group)
+
+
+    def _load(self, group):
+        """
+        Load the state of the node from a HDF5 file.
+        """
+        self._x = group['x'][...]
+        super()._load(group)
+
+
 class Function(Deterministic):
 
 
-- 
2.43.0


From 5f781c41c5090c3068fcbff2864153e426b4f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 03/49] fix: complete the iteration before auto-saving

The auto-saved iteration counter lagged the saved history by one, so that the
last iteration was overwritten after loading.
---
 bayespy/inference/vmp/vmp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index d1aea67..c812807 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -746,9 +746,14 @@ class VB():
                     self.print("Converged at iteration %d." % (self.iter+1))
                 self.converged = True
 
-        # Auto-save, if requested
+        self.annealing_changed = False
+
+        self.iter += 1
+
+        # Auto-save, if requested. The iteration is complete at this point so
+        # that the saved iteration counter agrees with the saved history.
         if (self.autosave_iterations > 0
-            and np.mod(self.iter+1, self.autosave_iterations) == 0):
+            and np.mod(self.iter, self.autosave_iterations) == 0):
 
             if self.autosave_nodes is not None:
                 self.save(*self.autosave_nodes, filename=self.autosave_filename)
@@ -757,8 +762,5 @@ class VB():
             if verbose:
                 self.print('Auto-saved to %s' % self.autosave_filename)
 
-        self.annealing_changed = False
-
-        self.iter += 1
 
         return self.converged
-- 
2.43.0


From 91ff3486886f97dbf20eeb559afbafe9ad4fc1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 04/49] fix: Concentration and GammaShape accept ignore_masked
 in lower_bound_contribution

---
 bayespy/inference/vmp/nodes/dirichlet.py | 2 +-
 bayespy/inference/vmp/nodes/gamma.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 8825136..999d145 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -323,7 +323,7 @@ class Concentration(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
+    def lower_bound_contribution(self, ignore_masked=None):
         return (
             linalg.inner(self.u[0], self.regularization[0], ndim=1)
             + self.u[1] * self.regularization[1]
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 371d256..1fd6956 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -330,7 +330,7 @@ class GammaShape(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
+    def lower_bound_contribution(self, ignore_masked=None):
         return 0
 
 
-- 
2.43.0


From fe26536595a6d1cfb3b97979aeddea1622cbc41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 05/49] fix: Dirichlet gradient couples the categories through
 the sum of the parameters

---
 bayespy/inference/vmp/nodes/dirichlet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 999d145..be1443d 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -223,11 +223,16 @@ class DirichletDistribution(ExponentialFamilyDistribution):
 
            \nabla &=
            \begin{bmatrix}
-             (\psi^{(1)}(\phi_1) - \psi^{(1)}(\sum_d \phi_{1,d}) \nabla_1
+             \psi^{(1)}(\phi_1) \tilde{\nabla}_1
+             - \psi^{(1)}(\sum_d \phi_{1,d}) \sum_d \tilde{\nabla}_{1,d}
            \end{bmatrix}
         """
         sum_phi = np.sum(phi[0], axis=-1, keepdims=True)
-        d0 = g[0] * (special.polygamma(1, phi[0]) - special.polygamma(1, sum_phi))
+        sum_g = np.sum(g[0], axis=-1, keepdims=True)
+        d0 = (
+            g[0] * special.polygamma(1, phi[0])
+            - sum_g * special.polygamma(1, sum_phi)
+        )
         return [d0]
 
 
-- 
2.43.0


From 9780a7fd4b9c88aa52dc8bc5ac67029f1f37e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 06/49] fix: multinomial gradient with plate-dependent number
 of trials

---
 bayespy/inference/vmp/nodes/multinomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index bc651db..e4da20e 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -210,7 +210,8 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
             :math:`\phi`.
 
         """
-        return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
+        N = np.expand_dims(self.N, -1)
+        return u[0] * (g - linalg.inner(g, u[0])[...,None] / N)
 
     def squeeze(self, axis):
         try:
-- 
2.43.0


From 0d1835a5da1f10ffcbf5b031b21183dce1370667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:52 +0000
Subject: [PATCH 07/49] fix: Concatenate picks the whole slice of the mask for
 each parent

---
 bayespy/inference/vmp/nodes/concatenate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/concatenate.py b/bayespy/inference/vmp/nodes/concatenate.py
index a2b4b46..49bb66b 100644
--- a/bayespy/inference/vmp/nodes/concatenate.py
+++ b/bayespy/inference/vmp/nodes/concatenate.py
@@ -109,7 +109,7 @@ class Concatenate(Deterministic):
 
     def _compute_weights_to_parent(self, index, weights):
         axis = self._axis
-        indices = self._indices[index:(index+1)]
+        indices = self._indices[index:(index+2)]
         if np.ndim(weights) >= abs(axis) and np.shape(weights)[axis] > 1:
             # Take the middle one of the returned three arrays
             return np.split(weights, indices, axis=axis)[1]
-- 
2.43.0


From b01f0c2c840db5986624de30535b39f6284e801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:54 +0000
Subject: [PATCH 08/49] fix: log-determinant of a diagonal Wishart from
 broadcasted gamma moments

---
 bayespy/inference/vmp/nodes/gamma.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 1fd6956..33638c2 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -382,9 +382,11 @@ class _GammaToDiagonalWishart(Deterministic):
     def get_moments(self):
         u = self.parents[0].get_moments()
 
-        # Form a diagonal matrix from the gamma variables
-        return [np.identity(self.dims[0][0]) * u[0][...,np.newaxis],
-                np.sum(u[1], axis=(-1))]
+        # Form a diagonal matrix from the gamma variables (the moments may be
+        # broadcasted over the last plate)
+        D = self.dims[0][0]
+        return [np.identity(D) * u[0][...,np.newaxis],
+                np.sum(u[1] * np.ones(D), axis=(-1))]
 
     @staticmethod
     def _compute_message_to_parent(index, m_children, *u_parents):
-- 
2.43.0


From 6fdb079ed61fba43b98a54c1ae22aa3899aea3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:40 +0000
Subject: [PATCH 09/49] fix: add_plate_axis defines its moments and the
 position of the new plate

---
 bayespy/inference/vmp/nodes/node.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 0092454..ed3a412 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -1196,6 +1196,9 @@ def AddPlateAxis(to_plate):
                 to_plate -= N
                 #self.to_plate = to_plate
 
+            self._moments = X._moments
+            self._parent_moments = (X._moments,)
+
             super().__init__(X,
                              dims=X.dims,
                              **kwargs)
@@ -1208,14 +1211,14 @@ def AddPlateAxis(to_plate):
 
         def _plates_from_parent(self, index):
             plates = list(self.parents[index].plates)
-            plates.insert(len(plates)-to_plate+1, 1)
+            plates.insert(len(plates)+to_plate+1, 1)
             return tuple(plates)
 
 
         def _compute_weights_to_parent(self, index, weights):
             # Remove the added mask plate
             if abs(to_plate) <= np.ndim(weights):
-                sh_weighs = list(np.shape(weights))
+                sh_weights = list(np.shape(weights))
                 sh_weights.pop(to_plate)
                 weights = np.reshape(weights, sh_weights)
             return weights
-- 
2.43.0


From 836f76d7e74582b7e5c55c449b06eab48d8c80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 10/49] fix: tile nodes with any moments

---
 bayespy/inference/vmp/nodes/deterministic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/deterministic.py b/bayespy/inference/vmp/nodes/deterministic.py
index 7650951..b9a7642 100644
--- a/bayespy/inference/vmp/nodes/deterministic.py
+++ b/bayespy/inference/vmp/nodes/deterministic.py
@@ -181,10 +181,9 @@ def tile(X, tiles):
     
     class _Tile(Deterministic):
 
-        _parent_moments = (Moments(),)
-        
         def __init__(self, X, **kwargs):
             self._moments = X._moments
+            self._parent_moments = (X._moments,)
             super().__init__(X, dims=X.dims, **kwargs)
     
         def _compute_plates_to_parent(self, index, plates):
-- 
2.43.0


From e8af63e44e55400faa6853412d1551f830197427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:51 +0000
Subject: [PATCH 11/49] fix: broadcasted time axis in messages to a categorical
 Markov chain

---
 bayespy/inference/vmp/nodes/categorical_markov_chain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index c0af2f9..62af5ee 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -402,8 +402,10 @@ class CategoricalMarkovChainToCategorical(Deterministic):
         """
         Compute the message to a parent.
         """
-        m0 = m[0][...,0,:]
-        m1 = m[0][...,1:,None,:]
+        # Make sure the time axis does not use broadcasting
+        m = m[0] * np.ones((self.plates[-1], 1))
+        m0 = m[...,0,:]
+        m1 = m[...,1:,None,:]
         return [m0, m1]
 
 
-- 
2.43.0


From 6d2613f478791adcbf20f14e0a404929961f933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 12/49] fix: broadcasted moments in the sums over the rows of
 the dynamics of Gaussian Markov chains

---
 .../vmp/nodes/gaussian_markov_chain.py        | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index cedadbf..a9decc7 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -249,24 +249,29 @@ class _TemplateGaussianMarkovChain(ExponentialFamily):
 
 
 def _compute_cgf_for_gaussian_markov_chain(mumu_Lambda, logdet_Lambda,
-                                           logdet_nu, N):
+                                           logdet_nu, N, D):
     """
     Compute CGF using the moments of the parents.
     """
 
     g0 = -0.5 * mumu_Lambda #np.einsum('...ij,...ij->...', mumu, Lambda)
 
+    # The time axis and the axis of the states may use broadcasting
     g1 = 0.5 * logdet_Lambda
-    if np.ndim(logdet_nu) == 1:
-        g1 = g1 + 0.5 * (N-1) * np.sum(logdet_nu, axis=-1)
-    elif np.shape(logdet_nu)[-2] == 1:
-        g1 = g1 + 0.5 * (N-1) * np.sum(logdet_nu, axis=(-1,-2))
-    else:
-        g1 = g1 + 0.5 * np.sum(logdet_nu, axis=(-1,-2))
+    g1 = g1 + 0.5 * np.sum(logdet_nu * np.ones((N-1,D)), axis=(-1,-2))
 
     return g0 + g1
 
 
+def _sum_rows(x, D):
+    """
+    Sum over the rows of the dynamics matrix, the third last axis of `x`.
+
+    The axis may use broadcasting.
+    """
+    return np.sum(x * np.ones((D,1,1)), axis=-3)
+
+
 class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
     r"""
     Implementation of VMP formulas for Gaussian Markov chain
@@ -517,10 +522,10 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
             # (..., N-1, K)
             m0 = (
                 np.einsum('...dk,...d->...k', B, Xn) -
-                np.einsum('...dk,...d->...k', np.sum(AB, axis=-3), Xp)
+                np.einsum('...dk,...d->...k', _sum_rows(AB, D), Xp)
             )
             # (..., N-1, K, K)
-            m1 = -0.5 * np.sum(BB, axis=-3)
+            m1 = -0.5 * _sum_rows(BB, D)
 
             return [m0, m1]
 
@@ -610,13 +615,13 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
             phi0[...,1:,:] += np.einsum('...ij,...j->...i', nu_B, inputs)
             phi0[...,:-1,:] -= np.einsum(
                 '...ij,...j->...i',
-                np.sum(nu_AB, axis=-3),
+                _sum_rows(nu_AB, D),
                 inputs
             )
 
         # Diagonal blocks: -0.5 * (V_i + A_{i+1}' * V_{i+1} * A_{i+1})
         phi1[..., 1:, :, :] = -0.5 * misc.diag(nu, ndim=1)
-        phi1[..., :-1, :, :] += -0.5 * np.sum(nu_AA, axis=-3) #np.einsum('...kij,...k->...ij', AA, v)
+        phi1[..., :-1, :, :] += -0.5 * _sum_rows(nu_AA, D) #np.einsum('...kij,...k->...ij', AA, v)
         #phi1 *= -0.5
 
         # Super-diagonal blocks: 0.5 * A.T * V
@@ -633,7 +638,8 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         g = _compute_cgf_for_gaussian_markov_chain(u_mu_Lambda[1],
                                                    u_mu_Lambda[3],
                                                    u_A_nu[3],
-                                                   self.N)
+                                                   self.N,
+                                                   self.D)
 
         if len(u_inputs):
             D = np.shape(u_mu_Lambda[0])[-1]
@@ -644,7 +650,7 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
             g_inputs = -0.5 * np.einsum(
                 '...ij,...ij->...',
                 uu,
-                np.sum(nu_BB, axis=-3)
+                _sum_rows(nu_BB, D)
                 #BB_v
             )
             # Sum over time axis
@@ -990,7 +996,7 @@ class VaryingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribu
             XpXn = u[2] # (...,N,D,D)
             B = u_B[0]  # (...,D,D,K)
             BB = u_B[1] # (...,D,D,K,D,K)
-            v = u_v[0]  # (...,N,D)
+            v = u_v[0] * np.ones(self.D)  # (...,N,D)
 
             # m0: (...,N,K)
             m0 = np.einsum('...nji,...ijk,...ni->...nk',
@@ -1067,7 +1073,8 @@ class VaryingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribu
         BB = u_B[1]          # (..., D, D, K, D, K)
         S = u_S[0]           # (..., N-1, K) or (..., 1, K)
         SS = u_S[1]          # (..., N-1, K, K)
-        v = u_v[0]           # (..., N-1, D) or (..., 1, D)
+        # (..., N-1, D) or (..., 1, D)
+        v = u_v[0] * np.ones(D)
 
         # TODO/FIXME: Take into account plates!
         plates_phi0 = misc.broadcasted_shape(np.shape(mu)[:-1],
@@ -1130,7 +1137,8 @@ class VaryingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribu
         return _compute_cgf_for_gaussian_markov_chain(u_mumu_Lambda,
                                                       u_Lambda[1],
                                                       u_v[1],
-                                                      self.N)
+                                                      self.N,
+                                                      self.D)
 
     def plates_to_parent(self, index, plates):
         """
@@ -1524,8 +1532,8 @@ class SwitchingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistri
             XpXn = u[2]                     # (...,N-1,D,D)
             B = u_B[0]                      # (...,K,D,D)
             BB = u_B[1]                     # (...,K,D,D,D)
-            v = misc.atleast_nd(u_v[0], 2)    # (...,N-1,D)
-            logv = misc.atleast_nd(u_v[1], 2) # (...,N-1,D)
+            v = misc.atleast_nd(u_v[0], 2) * np.ones(self.D)    # (...,N-1,D)
+            logv = misc.atleast_nd(u_v[1], 2) * np.ones(self.D) # (...,N-1,D)
 
             # Check that there is no time-dependency in v and remove the axis
             if np.ndim(v) >= 2 and np.shape(v)[-2] > 1:
@@ -1611,7 +1619,8 @@ class SwitchingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistri
         B = u_B[0]                      # (..., K, D, D)
         BB = u_B[1]                     # (..., K, D, D, D)
         Z = u_Z[0]                      # (..., N-1, K)
-        v = misc.atleast_nd(u_v[0], 2) # (..., N-1, D) or (..., 1, D)
+        # (..., N-1, D) or (..., 1, D)
+        v = misc.atleast_nd(u_v[0], 2) * np.ones(D)
 
         # TODO/FIXME: Take into account plates!
         plates_phi0 = misc.broadcasted_shape(np.shape(mu)[:-1],
@@ -1672,7 +1681,8 @@ class SwitchingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistri
         return _compute_cgf_for_gaussian_markov_chain(u_mumu_Lambda,
                                                       u_Lambda[1],
                                                       u_v[1],
-                                                      self.N)
+                                                      self.N,
+                                                      self.D)
 
     def plates_to_parent(self, index, plates):
         """
-- 
2.43.0


From 8e6e91641dbcaee2970e455a5625e0b8d06e90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 13/49] fix: plates of the input signals of a Gaussian Markov
 chain

---
 .../vmp/nodes/gaussian_markov_chain.py          | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index a9decc7..7718e2a 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -496,6 +496,18 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
                 m1_BB = -0.5 * zz[..., None, :, :]
                 m1_AB = -0.5 * Xn[..., :-1, None, :, None] * z[..., None, None, :]
 
+                # Make sure that the blocks do not use different broadcasting
+                plates_m0 = misc.broadcasted_shape(np.shape(m0)[:-1],
+                                                   np.shape(m0_B)[:-1])
+                m0 = m0 * np.ones(plates_m0 + (1,))
+                m0_B = m0_B * np.ones(plates_m0 + (1,))
+                plates_m1 = misc.broadcasted_shape(np.shape(m1)[:-2],
+                                                   np.shape(m1_AB)[:-2],
+                                                   np.shape(m1_BB)[:-2])
+                m1 = m1 * np.ones(plates_m1 + (1,1))
+                m1_AB = m1_AB * np.ones(plates_m1 + (1,1))
+                m1_BB = m1_BB * np.ones(plates_m1 + (1,1))
+
                 # Construct full message arrays from blocks
                 m0 = np.concatenate([m0, m0_B], axis=-1)
                 row1 = np.concatenate([m1, m1_AB], axis=-1)
@@ -594,6 +606,7 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         if inputs is not None:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1],
                                                  np.shape(nu_B)[:-3],
+                                                 np.shape(inputs)[:-2],
                                                  np.shape(nu_AB)[:-4])
         else:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1])
@@ -907,8 +920,8 @@ class GaussianMarkovChain(_TemplateGaussianMarkovChain):
                  kwargs,
                  dims,
                  cls._total_plates(kwargs.get('plates'),
-                                   distribution.plates_from_parent(0, mu_Lambda.plates),
-                                   distribution.plates_from_parent(1, A_nu.plates)),
+                                   *[distribution.plates_from_parent(ind, parent.plates)
+                                     for (ind, parent) in enumerate(parents)]),
                  distribution,
                  moments,
                  _parent_moments)
-- 
2.43.0


From 30b59a35fcbdf71703d073a09ec6b891724e18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 14/49] fix: mixtures over other than the last plate axis

---
 bayespy/inference/vmp/nodes/binomial.py    |  4 ++++
 bayespy/inference/vmp/nodes/mixture.py     | 15 ++++++---------
 bayespy/inference/vmp/nodes/multinomial.py |  4 ++++
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index 8a2f4df..fbbad4f 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -142,6 +142,10 @@ class BinomialDistribution(ExponentialFamilyDistribution):
         return np.random.binomial(self.N, p, size=plates)
 
     def squeeze(self, axis):
+        if np.ndim(self.N) < abs(axis):
+            # The number of trials doesn't have the axis, so it is constant
+            # over the axis
+            return self
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index 2e9c047..1c6023d 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -65,14 +65,6 @@ class MixtureDistribution(ExponentialFamilyDistribution):
             # Compute g:
             # Shape(g)      = [Nn,..,K,..,N0]
             g = self.raw_distribution.compute_cgf_from_parents(*(u_parents[1:]))
-            # Reshape(g):
-            # Shape(g)      = [Nn,..,N0,K]
-            if np.ndim(g) < abs(self.cluster_plate):
-                # Not enough axes, just add the cluster plate axis
-                g = np.expand_dims(g, -1)
-            else:
-                # Move the cluster plate axis
-                g = misc.moveaxis(g, self.cluster_plate, -1)
 
             # Compute phi:
             # Shape(phi)    = [Nn,..,K,..,N0,Dd,..,D0]
@@ -99,7 +91,12 @@ class MixtureDistribution(ExponentialFamilyDistribution):
 
             # Move axis:
             # Shape(L)      = [Nn,..,N0,K]
-            L = np.moveaxis(L, self.cluster_plate, -1)
+            if np.ndim(L) < abs(self.cluster_plate):
+                # Not enough axes, just add the cluster plate axis
+                L = np.expand_dims(L, -1)
+            else:
+                # Move the cluster plate axis
+                L = misc.moveaxis(L, self.cluster_plate, -1)
 
             m = [L]
 
diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index e4da20e..c3fb79d 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -214,6 +214,10 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
         return u[0] * (g - linalg.inner(g, u[0])[...,None] / N)
 
     def squeeze(self, axis):
+        if np.ndim(self.N) < abs(axis):
+            # The number of trials doesn't have the axis, so it is constant
+            # over the axis
+            return self
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
-- 
2.43.0


From 6a6f7e4a86294c53b6fe131d442a3930f799295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 15/49] fix: posterior predictive density of mixtures over
 other than the last plate axis

---
 bayespy/inference/vmp/nodes/mixture.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index 1c6023d..d67aa4f 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -505,11 +505,13 @@ class Mixture(ExponentialFamily):
             # Shape(u) = [M1,..,Mm,N1,..,1,..,Nn,D1,..,Dd]
             # Shape(f) = [M1,..,Mm,N1,..,1,..,Nn]
             (u, f) = self._distribution.raw_distribution.compute_fixed_moments_and_f(x)
-            f = np.expand_dims(f, axis=self.cluster_plate)
+            if np.ndim(f) >= abs(self.cluster_plate):
+                f = np.expand_dims(f, axis=self.cluster_plate)
             for i in range(len(u)):
                 ndim_i = len(self.dims[i])
                 cluster_axis = self.cluster_plate - ndim_i
-                u[i] = np.expand_dims(u[i], axis=cluster_axis)
+                if np.ndim(u[i]) >= abs(cluster_axis):
+                    u[i] = np.expand_dims(u[i], axis=cluster_axis)
             # Shape(phi) = [N1,..,K,..,Nn,D1,..,Dd]
             phi = self._distribution.raw_distribution.compute_phi_from_parents(*(u_parents[1:]))
             # Shape(g) = [N1,..,K,..,Nn]
@@ -531,7 +533,7 @@ class Mixture(ExponentialFamily):
 
             # Weighted average. TODO/FIXME: Use einsum!
             # Shape(pdf) = [M1,..,Mm,N1,..,Nn]
-            pdf = np.sum(pdf * p, axis=self.cluster_plate)
+            pdf = np.sum(pdf * p, axis=-1)
 
             # Back to log-scale (add the overflow fix!)
             lpdf_max = np.squeeze(lpdf_max, axis=self.cluster_plate)
-- 
2.43.0


From de4586b14e43ebe7781b313b097d7b0d6a06dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 16/49] fix: chol_solve and solve_triangular over broadcast
 axes

---
 bayespy/utils/linalg.py | 60 +++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index db1a9e4..b426c70 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -97,14 +97,15 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
         l_u = len(sh_u)
         l_b = len(sh_b)
 
-        # Check which axis are iterated over with B along with U
+        # Shape of the result (broadcasting rules)
+        sh = misc.broadcasted_shape(sh_u, sh_b)
+
+        # Axes of U to iterate over: select the axes of B and the result
         ind_b = [slice(None)] * l_b
-        l_min = min(l_u, l_b)
-        jnd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==sh_u[i])
+        ind_out = [slice(None)] * len(sh)
+        jnd_b = tuple(i for i in range(-l_u,0) if sh_u[i] != 1)
 
-        if out == None:
-            # Shape of the result (broadcasting rules)
-            sh = misc.broadcasted_shape(sh_u, sh_b)
+        if out is None:
             #out = np.zeros(np.shape(B))
             out = np.zeros(sh + B.shape[-1:])
 
@@ -116,9 +117,11 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
             # which U is singleton and form them as a 2-D matrix and then
             # run the solver once.
 
-            # Select those axes of B for which U and B are not singleton
+            # Select the axes for which U is not singleton
             for j in jnd_b:
-                ind_b[j] = i[j]
+                ind_out[j] = i[j]
+                if -j <= l_b:
+                    ind_b[j] = 0 if sh_b[j] == 1 else i[j]
 
             # Collect all the axes for which U is singleton
             b = B[tuple(ind_b) + (slice(None),)]
@@ -128,14 +131,7 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
             if b.ndim > 1:
                 b = b.reshape((-1, b.shape[-1]))
 
-            # slice(None) to all preceeding axes and ellipsis for the last
-            # axis:
-            if len(ind_b) < len(sh):
-                ind_out = (slice(None),) + tuple(ind_b) + (slice(None),)
-            else:
-                ind_out = tuple(ind_b) + (slice(None),)
-
-            out[ind_out] = (
+            out[tuple(ind_out) + (slice(None),)] = (
                 # Handle (0, 0) matrices. See:
                 # https://github.com/scipy/scipy/issues/8056
                 np.empty(orig_shape) if np.size(U[i]) == 0 else
@@ -252,13 +248,14 @@ def solve_triangular(U, B, ndim=1, **kwargs):
     l_u = len(sh_u)
     l_b = len(sh_b)
 
-    # Check which axis are iterated over with B along with U
-    ind_b = [slice(None)] * l_b
-    l_min = min(l_u, l_b)
-    jnd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==sh_u[i])
-
     # Shape of the result (broadcasting rules)
     sh = misc.broadcasted_shape(sh_u, sh_b)
+
+    # Axes of U to iterate over: select the axes of B and the result
+    ind_b = [slice(None)] * l_b
+    ind_out = [slice(None)] * len(sh)
+    jnd_b = tuple(i for i in range(-l_u,0) if sh_u[i] != 1)
+
     out = np.zeros(sh + B.shape[-1:])
     for i in misc.nested_iterator(np.shape(U)[:-2]):
 
@@ -268,9 +265,11 @@ def solve_triangular(U, B, ndim=1, **kwargs):
         # which U is singleton and form them as a 2-D matrix and then
         # run the solver once.
 
-        # Select those axes of B for which U and B are not singleton
+        # Select the axes for which U is not singleton
         for j in jnd_b:
-            ind_b[j] = i[j]
+            ind_out[j] = i[j]
+            if -j <= l_b:
+                ind_b[j] = 0 if sh_b[j] == 1 else i[j]
 
         # Collect all the axes for which U is singleton
         b = B[tuple(ind_b) + (slice(None),)]
@@ -280,16 +279,11 @@ def solve_triangular(U, B, ndim=1, **kwargs):
         if b.ndim > 1:
             b = b.reshape((-1, b.shape[-1]))
 
-        # slice(None) to all preceeding axes and ellipsis for the last
-        # axis:
-        if len(ind_b) < len(sh):
-            ind_out = (slice(None),) + tuple(ind_b) + (slice(None),)
-        else:
-            ind_out = tuple(ind_b) + (slice(None),)
-
-        out[ind_out] = linalg.solve_triangular(U[i],
-                                               b.T,
-                                               **kwargs).T.reshape(orig_shape)
+        out[tuple(ind_out) + (slice(None),)] = (
+            linalg.solve_triangular(U[i],
+                                    b.T,
+                                    **kwargs).T.reshape(orig_shape)
+        )
 
     return out
 
-- 
2.43.0


From 608f4108962187ad93a9868e1452d28dad51fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 17/49] fix: message through a change of the number of Gaussian
 variable axes

---
 bayespy/inference/vmp/nodes/gaussian.py |  8 +++++---
 bayespy/utils/misc.py                   | 22 ++++++++++++++--------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ec1ddb2..d9f424a 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -120,10 +120,12 @@ class GaussianToGaussian():
 
     def compute_message_to_parent(self, m, u_parent):
         # Handle broadcasting in m_child
+        shape_to = self.shape_from[self.ndim_from-self.ndim_to:]
         m0 = m[0] * np.ones(self.shape_from)
-        m1 = (
-            misc.make_diag(m[1], ndim=self.ndim_from, ndim_from=self.ndim_to)
-            * misc.identity(*self.shape_from)
+        m1 = misc.make_diag(
+            m[1] * np.ones(self.shape_from + shape_to),
+            ndim=self.ndim_from,
+            ndim_from=self.ndim_to
         )
         return [m0, m1]
 
diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index ca6bd97..0d0527d 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -1169,6 +1169,10 @@ def make_diag(X, ndim=1, ndim_from=0):
 
     Diagonality means that for the resulting array Y holds:
     Y[...,i_1,i_2,..,i_ndim,j_1,j_2,..,j_ndim] is zero if i_n!=j_n for any n.
+
+    If ndim_from>0, the last ndim_from axes are already in the array as pairs
+    (the last 2*ndim_from axes) and they are kept as they are. That is, this is
+    an inverse operation of get_diag with ndim_to=ndim_from.
     """
     if ndim < 0:
         raise ValueError("Parameter ndim must be non-negative integer")
@@ -1194,14 +1198,16 @@ def make_diag(X, ndim=1, ndim_from=0):
 
     X = atleast_nd(X, ndim+ndim_from)
 
-    if ndim > 0:
-        if ndim_from > 0:
-            I = identity(*(np.shape(X)[-(ndim_from+ndim):-ndim_from]))
-        else:
-            I = identity(*(np.shape(X)[-ndim:]))
-        X = add_axes(X, axis=np.ndim(X)-ndim_from, num=ndim-ndim_from)
-        X = I * X
-    return X
+    # Only the axes which are not yet in X as pairs are made diagonal
+    ndim_diag = ndim - ndim_from
+    i = np.ndim(X) - ndim_from - ndim
+    shape_diag = np.shape(X)[i:i+ndim_diag]
+    I = np.reshape(
+        identity(*shape_diag),
+        shape_diag + ndim_from*(1,) + shape_diag + ndim_from*(1,)
+    )
+    X = add_axes(X, axis=np.ndim(X)-ndim_from, num=ndim_diag)
+    return I * X
 
 
 def get_diag(X, ndim=1, ndim_to=0):
-- 
2.43.0


From 49446b601780538013d3c8cd42520c9b50654506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 18/49] fix: drawing from a categorical variable must not
 modify its parameters

---
 bayespy/inference/vmp/nodes/categorical.py | 3 +--
 bayespy/inference/vmp/nodes/logistic.py    | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical.py b/bayespy/inference/vmp/nodes/categorical.py
index 0cd234d..99ac19f 100644
--- a/bayespy/inference/vmp/nodes/categorical.py
+++ b/bayespy/inference/vmp/nodes/categorical.py
@@ -118,8 +118,7 @@ class CategoricalDistribution(MultinomialDistribution):
         """
         Draw a random sample from the distribution.
         """
-        logp = phi[0]
-        logp -= np.amax(logp, axis=-1, keepdims=True)
+        logp = phi[0] - np.amax(phi[0], axis=-1, keepdims=True)
         p = np.exp(logp)
         return random.categorical(p, size=plates)
 
diff --git a/bayespy/inference/vmp/nodes/logistic.py b/bayespy/inference/vmp/nodes/logistic.py
index 27e1cab..0f04dab 100644
--- a/bayespy/inference/vmp/nodes/logistic.py
+++ b/bayespy/inference/vmp/nodes/logistic.py
@@ -99,8 +99,7 @@ class CategoricalDistribution(MultinomialDistribution):
         """
         Draw a random sample from the distribution.
         """
-        logp = phi[0]
-        logp -= np.amax(logp, axis=-1, keepdims=True)
+        logp = phi[0] - np.amax(phi[0], axis=-1, keepdims=True)
         p = np.exp(logp)
         return random.categorical(p, size=plates)
 
-- 
2.43.0


From 40b19b1c676d527f720791489a83d711cd440bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 19/49] fix: SumMultiply.get_parameters must not modify the
 moments of its parents

---
 bayespy/inference/vmp/nodes/dot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dot.py b/bayespy/inference/vmp/nodes/dot.py
index 0659ae4..0f93f48 100644
--- a/bayespy/inference/vmp/nodes/dot.py
+++ b/bayespy/inference/vmp/nodes/dot.py
@@ -418,8 +418,7 @@ class SumMultiply(Deterministic):
     def get_parameters(self):
         # Compute mean and variance
         u = self.get_moments()
-        u[1] -= u[0]**2
-        return u
+        return [u[0], u[1] - u[0]**2]
 
 
     def _message_to_parent(self, index, u_parent=None):
-- 
2.43.0


From d03d7444e2d31c14ab1cca06fdc58e0b4473855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 20/49] fix: draw the scale of a Gaussian-gamma variable from
 its marginal

---
 bayespy/inference/vmp/nodes/gaussian.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index d9f424a..cf279ba 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1122,11 +1122,13 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         r"""
         Draw a random sample from the distribution.
         """
-        # TODO/FIXME: This is incorrect, I think. Gamma distribution parameters
-        # aren't directly those, because phi has some parts from the Gaussian
-        # distribution.
+        # The marginal distribution of alpha is obtained by integrating the
+        # Gaussian variable out, thus the rate parameter needs to be corrected
+        # similarly as in compute_moments_and_cgf.
+        L_V = linalg.chol(-2*phi[1], ndim=self.ndim)
+        mu = linalg.chol_solve(L_V, phi[0], ndim=self.ndim)
         alpha = GammaDistribution().random(
-            phi[2],
+            phi[2] + 0.5 * linalg.inner(mu, phi[0], ndim=self.ndim),
             phi[3],
             plates=plates
         )
-- 
2.43.0


From d37abfe420ddd508408e4f2fd661a5605f39f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 21/49] fix: random Wishart matrix has the dimensionality of
 its scale matrix

---
 bayespy/utils/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/utils/random.py b/bayespy/utils/random.py
index ba6b56d..a2873f6 100644
--- a/bayespy/utils/random.py
+++ b/bayespy/utils/random.py
@@ -69,7 +69,7 @@ def wishart(nu, V):
         raise ValueError("Degrees of freedom must be equal or greater than the "
                          "dimensionality of the matrix.")
     X = np.random.multivariate_normal(np.zeros(D), V, size=nu)
-    return np.dot(X, X.T)
+    return np.dot(X.T, X)
 
 wishart_rand = wishart
 
-- 
2.43.0


From d7e1916807c47293a2ae07a12d84a3060d5ab16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 22/49] fix: draw categorical Markov chains from their joint
 distribution

---
 .../vmp/nodes/categorical_markov_chain.py       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index 62af5ee..85ecfb5 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -179,13 +179,20 @@ class CategoricalMarkovChainDistribution(ExponentialFamilyDistribution):
         """
         Draw a random sample from the distribution.
         """
-        # Convert natural parameters to transition probabilities
-        p0 = np.exp(phi[0] - misc.logsumexp(phi[0],
-                                            axis=-1,
-                                            keepdims=True))
-        P = np.exp(phi[1] - misc.logsumexp(phi[1],
+        # Convert natural parameters to transition probabilities. The state
+        # transition parameters aren't necessarily normalized (e.g., the
+        # parameters of the posterior), thus the weights of the remaining chain
+        # are collected backwards.
+        logP = phi[1] + np.zeros((self.N-1, 1, 1))
+        for n in reversed(range(self.N-2)):
+            logw = misc.logsumexp(logP[...,n+1,:,:], axis=-1)
+            logP[...,n,:,:] += logw[...,None,:]
+        logw = misc.logsumexp(logP, axis=-1, keepdims=True)
+        logp0 = phi[0] + logw[...,0,:,0]
+        p0 = np.exp(logp0 - misc.logsumexp(logp0,
                                            axis=-1,
                                            keepdims=True))
+        P = np.exp(logP - logw)
         # Explicit broadcasting
         P = P * np.ones(plates)[...,None,None,None]
         # Allocate memory
-- 
2.43.0


From 8aa85958fb358c784cfea4225638a833a2d92d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 23/49] fix: moments of fixed binomial values are computed of
 the value

BinomialMoments.compute_fixed_moments did not pass the value on, so that
initialize_from_value of Bernoulli and Binomial always raised TypeError.
---
 bayespy/inference/vmp/nodes/binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index fbbad4f..099e3be 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -45,7 +45,7 @@ class BinomialMoments(PoissonMoments):
         x = np.asanyarray(x)
         if np.any(x > self.N):
             raise ValueError("Invalid count")
-        return super().compute_fixed_moments()
+        return super().compute_fixed_moments(x)
 
 
     def compute_dims_from_values(self, x):
-- 
2.43.0


From c7cf599b3961fb190bf27cbc11c21409180b999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 24/49] fix: reject negative counts as fixed values of count
 variables

---
 bayespy/inference/vmp/nodes/poisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/poisson.py b/bayespy/inference/vmp/nodes/poisson.py
index 44893ac..4bd45b0 100644
--- a/bayespy/inference/vmp/nodes/poisson.py
+++ b/bayespy/inference/vmp/nodes/poisson.py
@@ -38,6 +38,8 @@ class PoissonMoments(Moments):
         x = np.asanyarray(x)
         if not misc.isinteger(x):
             raise ValueError("Count not integer")
+        if np.any(x < 0):
+            raise ValueError("Counts must be non-negative")
         # Now, the moments are just the counts
         return [x]
 
-- 
2.43.0


From 99adcb774b1cd50f02e18ac46cd5670aecf96275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 25/49] fix: number of categories of constant multinomial
 values

MultinomialMoments.from_values passed a tuple as the number of categories.
---
 bayespy/inference/vmp/nodes/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index c3fb79d..d32f712 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -56,7 +56,7 @@ class MultinomialMoments(Moments):
     @classmethod
     def from_values(cls, x):
         D = np.shape(x)[-1]
-        return cls( (D,) )
+        return cls(D)
 
 
 class MultinomialDistribution(ExponentialFamilyDistribution):
-- 
2.43.0


From ba8e0d60c87df74522c28fd760bf9449297bf225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 26/49] fix: set the value of a constant only if its shape is
 valid

Constant.set_value stored the moments before checking their shape, and it
did not store the value itself.
---
 bayespy/inference/vmp/nodes/constant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/constant.py b/bayespy/inference/vmp/nodes/constant.py
index ccc578c..f57f9dd 100644
--- a/bayespy/inference/vmp/nodes/constant.py
+++ b/bayespy/inference/vmp/nodes/constant.py
@@ -64,15 +64,17 @@ class Constant(Node):
     def set_value(self, x):
         x = np.asanyarray(x)
         #shapes = [np.shape(ui) for ui in self.u]
-        self.u = self._moments.compute_fixed_moments(x)
+        u = self._moments.compute_fixed_moments(x)
         for (i, dimsi) in enumerate(self.dims):
             correct_shape = tuple(self.plates) + tuple(dimsi)
-            given_shape = np.shape(self.u[i])
+            given_shape = np.shape(u[i])
             if not misc.is_shape_subset(given_shape, correct_shape):
                 raise ValueError(
                     "Incorrect shape {0} for the array, expected {1}"
                     .format(given_shape, correct_shape)
                 )
+        self.x = x
+        self.u = u
         return
 
 
-- 
2.43.0


From c8e6e2acedf701d7dac0fae2e882d8f5e33274b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 27/49] fix: accept nested lists as fixed values of Gaussian
 Markov chains

---
 bayespy/inference/vmp/nodes/gaussian_markov_chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 7718e2a..0509d3a 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -42,6 +42,7 @@ class GaussianMarkovChainMoments(Moments):
 
 
     def compute_fixed_moments(self, x):
+        x = np.asanyarray(x)
         u0 = x
         u1 = x[...,:,np.newaxis] * x[...,np.newaxis,:]
         u2 = x[...,:-1,:,np.newaxis] * x[...,1:,np.newaxis,:]
-- 
2.43.0


From 0a3babeaaf6233bc59479aa6e4a47fba62d993f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 28/49] fix: shape of constant scalar Gaussian-gamma values

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index cf279ba..d681f50 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -211,7 +211,7 @@ class GaussianGammaMoments(Moments):
         """
         (x, alpha) = x_alpha
         if ndim == 0:
-            shape = ( (), (), (), () )
+            shape = ()
         else:
             shape = np.shape(x)[-ndim:]
         return cls(shape)
-- 
2.43.0


From f25fb2f26bbcd0d72753bbef68276027162b35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 29/49] fix: undefined name in
 GaussianWishartMoments.from_values

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index d681f50..ce6528c 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -271,7 +271,7 @@ class GaussianWishartMoments(Moments):
 
 
     @classmethod
-    def from_values(self, x, Lambda, ndim):
+    def from_values(cls, x, Lambda, ndim):
         r"""
         Return the shape of the moments for a fixed value.
         """
-- 
2.43.0


From 3926685a9fdcdf098ee52603747eaa5c77d52982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 30/49] fix: error message of initial values of invalid shape

---
 bayespy/inference/vmp/nodes/expfamily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index f93ec57..810b458 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -200,7 +200,7 @@ class ExponentialFamily(Stochastic):
             if ndim > 0:
                 if np.shape(u[i])[-ndim:] != self.dims[i]:
                     raise ValueError("The initial value for node %s has invalid shape %s."
-                                     % (np.shape(x)))
+                                     % (self.name, np.shape(x)))
         self._set_moments_and_cgf(u, np.inf, mask=mask)
 
     def initialize_from_random(self):
-- 
2.43.0


From c081d763de8d973f7ab980636603d12446bb44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 31/49] fix: accept nested lists as observations of Gaussian
 Markov chains

---
 bayespy/inference/vmp/nodes/gaussian_markov_chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 0509d3a..0c2ffcd 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -130,6 +130,7 @@ class TemplateGaussianMarkovChainDistribution(ExponentialFamilyDistribution):
         """
         Compute u(x) and f(x) for given x.
         """
+        x = np.asanyarray(x)
         u0 = x
         u1 = x[...,:,np.newaxis] * x[...,np.newaxis,:]
         u2 = x[...,:-1,:,np.newaxis] * x[...,1:,np.newaxis,:]
-- 
2.43.0


From 20961f750bcb65e2a0ce9cf63df6a45f9533786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 32/49] fix: register a node with its parents only after it has
 been validated

---
 bayespy/inference/vmp/nodes/node.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index ed3a412..094949a 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -269,11 +269,6 @@ class Node():
             if len(parent_id_list) != len(set(parent_id_list)):
                 raise ValueError("Parent nodes are not independent")
 
-        # Inform parent nodes
-        if notify_parents:
-            for (index,parent) in enumerate(self.parents):
-                parent._add_child(self, index)
-
         # Check plates
         parent_plates = [self._plates_from_parent(index)
                          for index in range(len(self.parents))]
@@ -300,6 +295,11 @@ class Node():
                                               *parent_plates_multiplier)
         self.plates_multiplier = plates_multiplier
 
+        # Inform parent nodes (only after everything has been validated)
+        if notify_parents:
+            for (index,parent) in enumerate(self.parents):
+                parent._add_child(self, index)
+
 
     def get_pdf_nodes(self):
         return tuple(
-- 
2.43.0


From 5a34a6970908ec357f521848c84e38e44865c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 33/49] fix: delete nodes that have children

---
 bayespy/inference/vmp/nodes/deterministic.py | 11 +++++++++++
 bayespy/inference/vmp/nodes/node.py          |  6 ++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/deterministic.py b/bayespy/inference/vmp/nodes/deterministic.py
index b9a7642..c3828bf 100644
--- a/bayespy/inference/vmp/nodes/deterministic.py
+++ b/bayespy/inference/vmp/nodes/deterministic.py
@@ -142,6 +142,17 @@ class Deterministic(Node):
             for (ind, parent) in enumerate(self.parents):
                 parent._remove_child(self, ind)
 
+    def delete(self):
+        """
+        Delete the children of this node.
+
+        Because the parents know about a deterministic node only as long as it
+        has children, it is removed from them along with the last child.
+        """
+        while len(self.children) > 0:
+            (child, _) = next(iter(self.children))
+            child.delete()
+
     def lower_bound_contribution(self, gradient=False, **kwargs):
         # Deterministic functions are delta distributions so the lower bound
         # contribuion is zero.
diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 094949a..6fca9a9 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -700,10 +700,12 @@ class Node():
         """
         Delete this node and the children
         """
+        # Children unregister themselves, so the set changes on every iteration
+        while len(self.children) > 0:
+            (child, _) = next(iter(self.children))
+            child.delete()
         for (ind, parent) in enumerate(self.parents):
             parent._remove_child(self, ind)
-        for (child, _) in self.children:
-            child.delete()
 
     @staticmethod
     def broadcasting_multiplier(plates, *args):
-- 
2.43.0


From 5767296780e9c6624c759c511aa7cfef47ac4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 34/49] fix: plates multiplier of the parents of GaussianARD

---
 bayespy/inference/vmp/nodes/gaussian.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ce6528c..9c7bbf6 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1664,6 +1664,18 @@ class GaussianARD(_GaussianTemplate):
                 parent_moments)
 
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        # The last plate axes of the parent are variable axes in this node
+        ndim = len(self._distribution.shape)
+        if ndim == 0:
+            return plates_multiplier
+        if any(m != 1 for m in plates_multiplier[-ndim:]):
+            raise ValueError("The plates multiplier {0} of a parent would apply "
+                             "to the variable axes of the node"
+                             .format(plates_multiplier))
+        return plates_multiplier[:-ndim]
+
+
     def initialize_from_parameters(self, mu, alpha):
         # Explicit broadcasting so the shapes match
         mu = mu * np.ones(np.shape(alpha))
-- 
2.43.0


From 885ef2d7126a340028a16de8b8e71eae402da5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 35/49] fix: find conversions through indirect base classes of
 the moments

---
 bayespy/inference/vmp/nodes/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 6fca9a9..7099650 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -158,7 +158,7 @@ class Moments():
                 for parent in parents:
                     # Recursively add parents
                     for p in parent.__bases__:
-                        if isinstance(p, Moments):
+                        if issubclass(p, Moments):
                             parents.append(p)
                     # Add un-visited parents
                     if issubclass(parent, Moments) and parent not in visited:
-- 
2.43.0


From 39c3e921022f8381d5fd62d506148d114a5e407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 36/49] fix: gradient of the rotation bound when the prior of
 alpha varies over the elements

---
 bayespy/inference/vmp/transformations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 795e259..3d5cd6a 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -893,7 +893,9 @@ class RotateGaussianARD():
                                        1/b,
                                        D_b)
             D_logalpha     = -D_logb
-            D_a0_logalpha  = a0 * D_logalpha
+            D_a0_logalpha  = np.einsum('...i,...ij->...ij',
+                                       a0,
+                                       D_logalpha)
         else:
             XmuXmu_Dalpha = 0
             D_logalpha = 0
@@ -1055,9 +1057,8 @@ class RotateGaussianARD():
 
         if self.update_alpha:
 
-            D_alpha = -psi(alpha/b)
-            D_b0_alpha = b0 * D_alpha
-            D_a0_logalpha = a0 * D_logalpha
+            D_b0_alpha = -psi(b0*alpha/b)
+            D_a0_logalpha = -psi(a0/b)
 
             # Compute dH(alpha)
             # This cancels out with the log(alpha) term in log(p(alpha))
-- 
2.43.0


From aa749c9ccbbaad631c60a7b361439e671eba8e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 37/49] fix: bound of the rotation of Gaussian nodes

The bound referred to an undefined name and to a parent the node does not
have, and counted only the first plate axis.
---
 bayespy/inference/vmp/transformations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 3d5cd6a..f0e907c 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -241,7 +241,7 @@ class RotateGaussian():
         mask = self.X.mask[...,np.newaxis,np.newaxis]
 
         # Number of plates
-        self.N = self.X.plates[0] #np.sum(mask)
+        self.N = np.prod(self.X.plates)
 
         # Compute the sum <XX> over plates
         self.XX = misc.sum_multiply(self.X.get_moments()[1],
@@ -250,9 +250,9 @@ class RotateGaussian():
                                     sumaxis=False,
                                     keepdims=False)
         # Parent's moments
-        self.Lambda = self.X.parents[1].get_moments()[0]
+        self.Lambda = self.X.parents[0].get_moments()[2]
 
-    def _compute_bound(self, R, logdet=None, inv=None, gradient=False):
+    def _compute_bound(self, R, logdet=None, inv=None, gradient=False, terms=False):
         
         """
         Rotate q(X) as X->RX: q(X)=N(R*mu, R*Cov*R')
@@ -288,7 +288,7 @@ class RotateGaussian():
 
         # Compute the bound
         if terms:
-            bound = {self.X: bound}
+            bound = {self.X: logp_X + logH_X}
         else:
             bound = logp_X + logH_X
 
-- 
2.43.0


From b15ccfea448d48dd4c5350088c8ef28f87b8ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 38/49] fix: sum the bound of a concentration estimate over its
 plates

---
 bayespy/inference/vmp/nodes/dirichlet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index be1443d..9e4dc43 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -329,10 +329,15 @@ class Concentration(Stochastic):
 
 
     def lower_bound_contribution(self, ignore_masked=None):
-        return (
+        L = (
             linalg.inner(self.u[0], self.regularization[0], ndim=1)
             + self.u[1] * self.regularization[1]
         )
+        return (
+            np.sum(L)
+            * self.broadcasting_multiplier(self.plates, np.shape(L))
+            * np.prod(self.plates_multiplier)
+        )
 
 
 class Dirichlet(ExponentialFamily):
-- 
2.43.0


From 4effe22705233acaf997b3fa3194141a61f9d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 39/49] fix: prior terms of a shape estimate in the bound it
 maximises

---
 bayespy/inference/vmp/nodes/gamma.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 33638c2..d052322 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -331,7 +331,12 @@ class GammaShape(Stochastic):
 
 
     def lower_bound_contribution(self, ignore_masked=None):
-        return 0
+        L = self._m0 * self.u[0] + self._m1 * self.u[1]
+        return (
+            np.sum(L)
+            * self.broadcasting_multiplier(self.plates, np.shape(L))
+            * np.prod(self.plates_multiplier)
+        )
 
 
 class _GammaToDiagonalWishart(Deterministic):
-- 
2.43.0


From a98ecdd5518ad7e93e765b8ffa74907058c8c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 40/49] fix: ask the moments of a Gaussian-gamma node for its
 ndim

---
 bayespy/inference/vmp/nodes/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 9c7bbf6..1668986 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1967,7 +1967,7 @@ class GaussianGamma(ExponentialFamily):
         """
         import bayespy.plot as bpplt
         
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         if np.prod(self.plates) != 1:
@@ -2039,7 +2039,7 @@ class GaussianGamma(ExponentialFamily):
         r"""
         Return the mean and variance of the distribution
         """
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         a = self.phi[3]
@@ -2077,7 +2077,7 @@ class GaussianGamma(ExponentialFamily):
         function
             A function which computes log-pdf
         """
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         if gaussian is None and not gamma:
-- 
2.43.0


From 78c8fc79204705c08f2e0559aa8e216870a903e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 41/49] fix: raise the error about a negative target ndim

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 1668986..1d8c1d8 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -91,7 +91,7 @@ class GaussianToGaussian():
             raise ValueError()
 
         if ndim_to < 0:
-            return ValueError("ndim_to must be non-negative")
+            raise ValueError("ndim_to must be non-negative")
 
         self.shape_from = moments_from.shape
         self.ndim_from = moments_from.ndim
-- 
2.43.0


From 260b7bd6c1cf3a852b30c7f3e00093d99f418026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 42/49] fix: name the class in the error of
 CategoricalMarkovChainMoments.from_values

---
 bayespy/inference/vmp/nodes/categorical_markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index 85ecfb5..00217b8 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -73,7 +73,7 @@ class CategoricalMarkovChainMoments(Moments):
         """
         raise NotImplementedError("from_values not implemented "
                                   "for %s"
-                                  % (self.__class__.__name__))
+                                  % (cls.__name__))
 
 
 class CategoricalMarkovChainDistribution(ExponentialFamilyDistribution):
-- 
2.43.0


From c793ebd779302f797ee3f9a8fafaeeb186ed1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 43/49] fix: arguments of Constant in the gamma to Wishart
 converters

---
 bayespy/inference/vmp/nodes/gamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index d052322..a292384 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -355,7 +355,7 @@ class _GammaToDiagonalWishart(Deterministic):
 
         # Check for constant
         if misc.is_numeric(alpha):
-            alpha = Constant(Gamma)(alpha)
+            alpha = Constant(GammaMoments(), alpha)
 
         if len(alpha.plates) == 0:
             raise Exception("Gamma variable needs to have plates in "
@@ -416,7 +416,7 @@ class _GammaToScalarWishart(Deterministic):
 
         # Check for constant
         if misc.is_numeric(alpha):
-            alpha = Constant(Gamma)(alpha)
+            alpha = Constant(GammaMoments(), alpha)
 
         # FIXME: Put import here to avoid circular dependency import
         from .wishart import WishartMoments
-- 
2.43.0


From c8e6a50f74d6f4156efd27877e0a0d827c956235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 44/49] fix: accept the parent's moments in the message of
 LogPDF

---
 bayespy/inference/vmp/nodes/logpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/logpdf.py b/bayespy/inference/vmp/nodes/logpdf.py
index 5850c57..f2cfc7c 100644
--- a/bayespy/inference/vmp/nodes/logpdf.py
+++ b/bayespy/inference/vmp/nodes/logpdf.py
@@ -62,7 +62,7 @@ class LogPDF(ExponentialFamily):
                 _parent_moments)
 
 
-    def _get_message_and_mask_to_parent(self, index):
+    def _get_message_and_mask_to_parent(self, index, u_parent=None):
         def logpdf_sampler(x):
             inputs = [self.parents[j].random() if j != index
                       else x
-- 
2.43.0


From 5957f1cc19f315e5ef93474323a2a2295947a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 45/49] fix: say so when a deterministic node cannot be sampled

---
 bayespy/inference/vmp/nodes/deterministic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/deterministic.py b/bayespy/inference/vmp/nodes/deterministic.py
index c3828bf..a6a3d41 100644
--- a/bayespy/inference/vmp/nodes/deterministic.py
+++ b/bayespy/inference/vmp/nodes/deterministic.py
@@ -159,6 +159,14 @@ class Deterministic(Node):
         return 0
 
 
+    def _compute_function(self, *x_parents):
+        # Sub-classes that can be sampled should implement this
+        raise NotImplementedError(
+            "Random sampling not implemented for {0}"
+            .format(self.__class__.__name__)
+        )
+
+
     def random(self):
         samples = [parent.random() for parent in self.parents]
         return self._compute_function(*samples)
-- 
2.43.0


From 66421e339ad118a8a7d384cbb3943f5bc7ef7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 46/49] fix: let VB.use_logging follow its argument

---
 bayespy/inference/vmp/vmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index c812807..aec917d 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -109,7 +109,7 @@ class VB():
 
 
     def use_logging(self, use):
-        if use_logging:
+        if use:
             logger = logging.getLogger(__name__)
             self.print = logger.info
         else:
-- 
2.43.0


From d1078c26c18e91d288f3fb4374eb6c1967a3ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 47/49] fix: return the user data VB.load_user_data reads

---
 bayespy/inference/vmp/vmp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index aec917d..c95a693 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -297,13 +297,14 @@ class VB():
         f = h5py.File(filename, 'r')
         try:
             group = f['user_data']
+            user_data = {}
             for (key, value) in group.items():
-                user_data['key'] = value[...]
+                user_data[key] = value[...]
         except:
             raise
         finally:
             f.close()
-        return
+        return user_data
 
 
     def load(self, *nodes, filename=None, nodes_only=False):
-- 
2.43.0


From baa139d4cca2710f6d92a7babbb39a632b3520ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 48/49] fix: fixed moments of LogPDF take no mask

---
 bayespy/inference/vmp/nodes/logpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/logpdf.py b/bayespy/inference/vmp/nodes/logpdf.py
index f2cfc7c..03ae5d0 100644
--- a/bayespy/inference/vmp/nodes/logpdf.py
+++ b/bayespy/inference/vmp/nodes/logpdf.py
@@ -79,7 +79,7 @@ class LogPDF(ExponentialFamily):
 
         # Compute fixed moments
         if not np.isnan(self._moments):
-            u = self._moments.compute_fixed_moments(x, *args, mask=mask)
+            u = self._moments.compute_fixed_moments(x, *args)
         else:
             u = (x,) + args
 
-- 
2.43.0


From 6e94eaefea55bb3d35fda9b09630e656b5efe8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 49/49] fix: give LogPDF the interface of the distributions its
 node asks

---
 bayespy/inference/vmp/nodes/logpdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/logpdf.py b/bayespy/inference/vmp/nodes/logpdf.py
index 03ae5d0..4c80138 100644
--- a/bayespy/inference/vmp/nodes/logpdf.py
+++ b/bayespy/inference/vmp/nodes/logpdf.py
@@ -7,12 +7,12 @@
 
 import numpy as np
 
-from .expfamily import ExponentialFamily, useconstructor
-from .stochastic import Distribution
+from .expfamily import (ExponentialFamily, ExponentialFamilyDistribution,
+                        useconstructor)
 from .node import Moments
 
 
-class LogPDFDistribution(Distribution):
+class LogPDFDistribution(ExponentialFamilyDistribution):
     pass
 
 
-- 
2.43.0

