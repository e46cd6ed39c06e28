From c14c2ece2d199041f071cf2dd810cc8e3164d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 01/39] fix: log-posterior uses half the squared residual norm

calc_gradg returns A^H C^-1 (pred - data), the gradient of L2 / 2, so the chains
sample exp(-L2 / 2 - mu * prior); logpi reported (and PxMALA accepted on)
exp(-L2 - mu * prior), a different posterior.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 45cf316..394f021 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -78,7 +78,7 @@ class PxMCMC:
         diff = self.forward.data - preds
         L2 = np.vdot(diff, self.forward.invcov @ diff)
         prior = self.prior.prior(X)
-        logPi = -self.mu * prior - L2
+        logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-- 
2.43.0


From 44761e9af0430e6077af501a5bec7ecb25280a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 02/39] fix: PxMALA transition density matches the proposal

The proposal is N(X + delta * grad, 2 * delta), so log q(X2|X1) is
-|X2 - X1 - delta * grad|^2 / (4 * delta). The code multiplied by delta / 2
(operator precedence), used half the drift and squared the squared norm
(and took no modulus for complex samples), so the Metropolis-Hastings ratio
did not leave the target invariant.
---
 pxmcmc/mcmc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 394f021..feb8d47 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -283,9 +283,8 @@ class PxMALA(MYULA):
         Calculates the transition probability of stepping from model X1 to model X2 i.e. q(X2|X1).
         """
         gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
-        return (
-            -(1 / 2 * self.delta)
-            * np.sum((X2 - X1 - (self.delta / 2) * gradlogpiX1) ** 2) ** 2
+        return -np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2) / (
+            4 * self.delta
         )
 
 
-- 
2.43.0


From 08fd4abf9201234e6f14b53d947d4348df21f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 03/39] fix: PxMALA saves the current state at every thinning
 point

Samples were dropped when the proposal at the thinning point was rejected,
which biases the saved chain towards states that are easy to enter, makes the
spacing of the saved samples differ from ngap and lets run() loop forever
while nothing is accepted.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index feb8d47..89fc5f6 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -260,7 +260,7 @@ class PxMALA(MYULA):
                 self.deltas_trace.append(self.delta)
 
             if i >= self.nburn:
-                if (self.ngap == 0 or (i - self.nburn) % self.ngap == 0) and accept:
+                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:
                     self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)
                     j += 1
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-- 
2.43.0


From 24b74172b84e3024b39d421c1b1acfd2f9cd66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 04/39] fix: SKROCK stage recursion follows the SK-ROCK scheme

For s >= 2 the stages are K_j = mu_j delta grad(K_{j-1}) + nu_j K_{j-1} + k_j K_{j-2}
with T_{j-1}(omega_0) / T_j(omega_0) ratios and k_j = 1 - nu_j. The ratio was
evaluated at omega_1 in the denominator, k_j was always 1 and was added instead
of multiplied.
---
 pxmcmc/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 89fc5f6..d6e44ff 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -362,8 +362,7 @@ class SKROCK(PxMCMC):
                 * self.delta
                 * self._gradlogpi(self._K_recursion(X, s - 1, Z))
                 + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s]
-                - self._K_recursion(X, s - 2, Z)
+                + self.ks[s] * self._K_recursion(X, s - 2, Z)
             )
 
     def _recursion_coefs(self):
@@ -376,7 +375,7 @@ class SKROCK(PxMCMC):
         self.ks[1] = self.s * self.omega_1 / self.omega_0
 
         for j in range(2, self.s + 1):
-            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_1, j)
+            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_0, j)
             self.mus[j] = 2 * self.omega_1 * cheb_ratio
             self.nus[j] = 2 * self.omega_0 * cheb_ratio
-            self.ks[j] = 1 - self.nus[0]
+            self.ks[j] = 1 - self.nus[j]
-- 
2.43.0


From e36b285de37cb6014ffd8de123ddab7da827454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 05/39] fix: MYULA and SKROCK print progress whatever is
 tracked

The progress line read the tracking arrays, so a run with verbosity on and
logposterior, L2 or prior not tracked died with AttributeError; SKROCK also
printed the last, unwritten slot during burn-in.
---
 pxmcmc/mcmc.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index d6e44ff..89db04e 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -169,12 +169,7 @@ class MYULA(PxMCMC):
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                    self._print_progress(
-                        j - 1,
-                        self.logPi[j - 1],
-                        L2=self.L2s[j - 1],
-                        prior=self.priors[j - 1],
-                    )
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
             else:
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                     print("Burning in...")
@@ -323,13 +318,11 @@ class SKROCK(PxMCMC):
                     logPi, L2, prior = self.logpi(X_curr, curr_preds)
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
-            if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                self._print_progress(
-                    j - 1,
-                    self.logPi[j - 1],
-                    L2=self.L2s[j - 1],
-                    prior=self.priors[j - 1],
-                )
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
+            else:
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    print("Burning in...")
             i += 1
 
         print("\nDONE")
-- 
2.43.0


From 0d902bc3e00669c3039c3f16c60652f6caa392b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 06/39] fix: accept a covariance matrix as data error

sparse.linalg.inv rejects the dense array that the isinstance check requires,
so the documented 2D form of sig_d always raised TypeError.
---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 3f3bbd3..16be580 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -75,7 +75,7 @@ class ForwardOperator:
         if isinstance(sig_d, np.ndarray) and len(sig_d.shape) == 2:
             if sig_d.shape[0] != sig_d.shape[1]:
                 raise ValueError("Covariance matrix should be square")
-            return sparse.linalg.inv(sig_d)
+            return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
         if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-- 
2.43.0


From fb1b9c92e4527995b9d16bdf3901e7543aad4dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 07/39] fix: complex data keep a real inverse covariance

A real data error was turned into a complex variance for complex data, which
rotated the gradient of the data fidelity by 45 degrees and made L2 and the
log-posterior complex.
---
 pxmcmc/forward.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 16be580..c836116 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -78,8 +78,6 @@ class ForwardOperator:
             return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
-        if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-            var = var / np.sqrt(2) * (1 + 1j)
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
-- 
2.43.0


From 3b106ca43f8b3d3d0e6c4e3cdd884f78518e3299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 08/39] fix: track complex predictions as complex

Predictions of complex data were stored in a float array, which drops their
imaginary part; L2 of complex data is real by construction, so return it as such.
---
 pxmcmc/mcmc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 89db04e..ad285b1 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -76,7 +76,7 @@ class PxMCMC:
         :param preds: vector of data predictions from model X
         """
         diff = self.forward.data - preds
-        L2 = np.vdot(diff, self.forward.invcov @ diff)
+        L2 = np.vdot(diff, self.forward.invcov @ diff).real
         prior = self.prior.prior(X)
         logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
@@ -115,7 +115,10 @@ class PxMCMC:
             self.logPi = np.zeros(self.nsamples)
         if "predictions" in self.track:
             self.preds = np.zeros(
-                (self.nsamples, len(self.forward.data)), dtype=float
+                (self.nsamples, len(self.forward.data)),
+                dtype=complex
+                if self.complex or np.iscomplexobj(self.forward.data)
+                else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From ddfc84d62be97668b718390f75ec76d909888bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 09/39] fix: chains of real parameters stay real

With complex=False a forward operator with complex intermediate values made the
chain state complex, and the tracked chain silently kept only the real part, so
the tracked log-posterior and predictions were not those of the tracked sample.
The gradient with respect to real parameters is the real part.
---
 pxmcmc/mcmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index ad285b1..107920a 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -191,12 +191,13 @@ class MYULA(PxMCMC):
         w = np.random.randn(self.forward.nparams)
         if self.complex:
             w = w + np.random.randn(self.forward.nparams) * 1j
-        return (
+        X_next = (
             (1 - self.delta / self.lmda) * X
             + (self.delta / self.lmda) * proxf
             - self.delta * gradg
             + np.sqrt(2 * self.delta) * w
         )
+        return X_next if self.complex else np.real(X_next)
 
 
 class PxMALA(MYULA):
@@ -339,7 +340,8 @@ class SKROCK(PxMCMC):
         Z = np.random.randn(len(X))
         if self.complex:
             Z = Z + np.random.randn(len(X)) * 1j
-        return self._K_recursion(X, self.s, Z)
+        X_next = self._K_recursion(X, self.s, Z)
+        return X_next if self.complex else np.real(X_next)
 
     def _K_recursion(self, X, s, Z):
         if s == 0:
-- 
2.43.0


From 89cb9f12aedc72e37ce9be844f2b7dea9d1a2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 10/39] fix: analysis prior is the L1 norm of the coefficients

proxf in the analysis setting is the prox of |adj(X)|_1, but prior returned
|X|_1.
---
 pxmcmc/prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 661011d..327c64d 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -32,6 +32,8 @@ class L1:
         :param X: MCMC sample
         :return: log prior
         """
+        if self.setting == "analysis":
+            X = self.adj(X)
         return sum(abs(X))
 
     def proxf(self, X):
-- 
2.43.0


From 8f6260c99ed628e2ec8f6e3358990d20460568a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 11/39] fix: power-weighted prior and prox use the same weights

The weights (which include the pixel areas) were applied twice in prior, while
the threshold was multiplied by both these weights and the plain pixel weights,
so proxf was not the prox of prior.
---
 pxmcmc/prior.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 327c64d..151758c 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -107,10 +107,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             self._get_weights()
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
-
-    def prior(self, X):
-        return super().prior(self.map_weights * X)
+        self.T = T * self.map_weights
 
     def _get_weights(self):
         scaling_weights = self._calculate_scaling_weights()
-- 
2.43.0


From ccc21d4838ce1928e3971ffe0d26f81382dc51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 12/39] fix: S2_Wavelets_L1 does not modify the caller's
 threshold array

With an array threshold the in-place product wrote the weights into the
caller's array, so building a second prior from it compounded them.
---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 151758c..c10cff4 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -80,7 +80,7 @@ class S2_Wavelets_L1(L1):
             self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = self.T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
-- 
2.43.0


From bcb3ac0c1062ab727c1d6e974b949af87312d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 13/39] fix: credible region holds the samples of highest log
 posterior

The region was the 1 - alpha samples of lowest log posterior, excluding the
MAP sample.
---
 pxmcmc/uncertainty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/uncertainty.py b/pxmcmc/uncertainty.py
index 36297d5..6e08ff6 100644
--- a/pxmcmc/uncertainty.py
+++ b/pxmcmc/uncertainty.py
@@ -48,9 +48,9 @@ def credible_region_threshold(logpis, alpha=0.05):
     :param float `alpha`: confidence level
     :return: log posterior threshold
     """
-    return np.quantile(logpis, 1 - alpha)
+    return np.quantile(logpis, alpha)
 
 
 def in_credible_region(logpi, threshold):
     """:meta private:"""
-    return True if logpi <= threshold else False
+    return True if logpi >= threshold else False
-- 
2.43.0


From b25bcfc9f3a8f9712501a52cfb9daa0f1308ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 14/39] fix: multiresolution bandlimits of scales without
 harmonics

Some valid wavelet parameters (e.g. L=8, B=1.5) have scales whose m=0 tiling is
zero, for which the maximum of an empty array was taken and ValueError raised.
s2let stores scale j at bandlimit min(ceil(B^(j+1)), L), and the scaling function
at min(ceil(B^J_min), L).
---
 pxmcmc/utils.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 5af11de..87eadc3 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -114,15 +114,9 @@ def alm2map(alm, nside, **kwargs):
 
 
 def _multires_bandlimits(L, B, J_min, dirs=1, spin=0):
-    phi_l, psi_lm = pys2let.wavelet_tiling(B, L, dirs, J_min, spin)
-    psi_l = np.zeros((psi_lm.shape[1], L), dtype=complex)
-    for j, psi in enumerate(psi_lm.T):
-        psi_l[j, :] = np.array([psi[el ** 2 + el] for el in range(L)])
-    gamma_l = np.vstack([phi_l, psi_l])
-    bandlimits = np.zeros(gamma_l.shape[0], dtype=int)
-    for j, gamma in enumerate(gamma_l):
-        bandlimits[j] = np.nonzero(gamma)[0].max() + 1
-    return bandlimits
+    J_max = pys2let.pys2let_j_max(B, L, J_min)
+    scales = [J_min] + [j + 1 for j in range(J_min, J_max + 1)]
+    return np.array([min(int(np.ceil(float(B) ** j)), L) for j in scales])
 
 
 def chebyshev1(X, order):
-- 
2.43.0


From 29881238e357c7dc6e21704bf90fa7d3bd7b6cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 15/39] fix: WeakLensing checks the shape of its mask before
 using it

A mask of the wrong shape raised IndexError instead of the documented ValueError.
---
 pxmcmc/measurements.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 207b88f..8707735 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -196,6 +196,8 @@ class WeakLensing(WeakLensingHarmonic):
             self.mask = np.ones(self.shape, dtype=bool)
         else:
             self.mask = mask.astype(bool)
+        if self.mask.shape != self.shape:
+            raise ValueError("Shape of mask map is incorrect!")
 
         # Define observational covariance
         if ngal is None:
@@ -203,9 +205,6 @@ class WeakLensing(WeakLensingHarmonic):
         else:
             self.inv_cov = self.ngal_to_inv_cov(ngal)
 
-        if self.mask.shape != self.shape:
-            raise ValueError("Shape of mask map is incorrect!")
-
     def forward(self, kappa):
         """Spherical weak lensing measurement operator
 
-- 
2.43.0


From 752b41849f2d8f361e01aa7909f11a70225b2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 16/39] fix: plot_map works with matplotlib 3.9 and later

matplotlib.cm.get_cmap no longer exists there.
---
 pxmcmc/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index de70c24..d587e45 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -1,7 +1,6 @@
 import numpy as np
 import healpy as hp
 import matplotlib.pyplot as plt
-from matplotlib import cm
 import copy
 import pyssht
 import pys2let
@@ -44,7 +43,7 @@ def plot_map(
 
     :return: matplotlib figure
     """
-    cmap = copy.copy(cm.get_cmap(cmap))
+    cmap = copy.copy(plt.get_cmap(cmap))
     cmap.set_bad(alpha=0)
 
     if oversample:
-- 
2.43.0


From 291096e2ce2c4a971e326116f148b061ec75dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 17/39] fix: plot_map does not write the mask into the caller's
 map

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index d587e45..5900444 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -58,7 +58,7 @@ def plot_map(
         vmin = -cbar_end
 
     if mask is not None:
-        f[mask] = np.nan
+        f = np.where(mask, np.nan, f)
     f_plt, _ = pyssht.mollweide_projection(f, L)
     fig = plt.figure(figsize=(20, 10))
     if not cbar:
-- 
2.43.0


From e7782df2c5fe8bd0198d7240d2c472b3dc599479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:56 +0000
Subject: [PATCH 18/39] fix: plot_evolution marks one MAP sample

A chain that visits its highest log posterior more than once (any PxMALA chain
that rejects there) gave several indices, which axvline does not accept.
---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 5900444..579a0f7 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -146,7 +146,7 @@ def plot_evolution(logposteriors, L2s, L1s, figsize=(10, 8)):
 
     :return: matplotlib figure
     """
-    MAP_idx = np.where(logposteriors == max(logposteriors))
+    MAP_idx = np.argmax(logposteriors)
     fig = plt.figure(figsize=figsize)
     plt.subplot(3, 1, 1)
     plt.plot(-logposteriors)
-- 
2.43.0


From f0e53fad7149297bc0aae93565dc664328c38f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:56 +0000
Subject: [PATCH 19/39] fix: plot_wavelet_maps without oversampling

The wavelet maps of a real image come back as complex arrays, whose Mollweide
projection has more parts than plot_map unpacks.
---
 pxmcmc/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 579a0f7..83a4371 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -102,6 +102,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     f_wav, f_scal = pys2let.analysis_px2wav(
         f.flatten().astype(complex), B, L, J_min, dirs, spin, upsample=0
     )
+    f_wav, f_scal = f_wav.real.copy(), f_scal.real.copy()
     figs = []
     if "title" in map_args:
         base_title = map_args["title"]
@@ -111,7 +112,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     figs.append(plot_map(f_scal.reshape(pyssht.sample_shape(bls[0])), **map_args))
 
     if same_scale:
-        map_args["vmax"] = np.max(f_wav).real
+        map_args["vmax"] = np.max(f_wav)
 
     scale_start = 0
     for i, bl in enumerate(bls[1:], 1):
-- 
2.43.0


From 08f8c5a0548c7d1f2521c4e96ad0f97b525a32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:56 +0000
Subject: [PATCH 20/39] fix: hard thresholding with a fraction below one
 element keeps nothing

Index -0 picked the smallest value as threshold, so everything was kept.
---
 pxmcmc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 87eadc3..f52649e 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -76,7 +76,7 @@ def hard(X, T=0.1):
     """
     X_srt = np.sort(abs(X))
     thresh_ind = int(T * len(X))
-    thresh_val = X_srt[-thresh_ind]
+    thresh_val = X_srt[-thresh_ind] if thresh_ind > 0 else np.inf
     X[abs(X) < thresh_val] = 0
     return X
 
-- 
2.43.0


From 50d8d43f38fb0b5fa2b494c5add1cc3d7690bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:33 +0000
Subject: [PATCH 21/39] fix: build_mask at bandlimits where the pole rounds
 beyond 90 degrees

The last MW ring is the south pole; for some bandlimits (7, 24, 42, 50...)
np.degrees(theta) - 90 is 90 + 3e-14 and astropy rejects the latitude.
---
 pxmcmc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index f52649e..5bba77b 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -329,7 +329,7 @@ def build_mask(L, size=20):
                 mask[i, j] = 0
 
     thetaarray, phiarray = pyssht.sample_positions(L, Grid=True)
-    thetaarray = np.degrees(thetaarray) - 90
+    thetaarray = np.clip(np.degrees(thetaarray) - 90, -90, 90)
     phiarray = np.degrees(phiarray) - 180
 
     c = SkyCoord(phiarray, thetaarray, unit="deg")
-- 
2.43.0


From fad9b38d6436f544e21f0e218ec316692876f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:36 +0000
Subject: [PATCH 22/39] fix: power weights are numbers when all wavelet scales
 have one size

np.array(all_weights, dtype=list) makes a single array of dtype object when the
scales share a bandlimit, so weights, prox and the chain of a run with real
parameters became object arrays and the run failed with TypeError.
---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index c10cff4..fab04b4 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -145,4 +145,4 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             thetas, _ = pyssht.sample_positions(effective_L)
             weights = (weights.T * np.sin(thetas)).T
             all_weights.append(weights)
-        return np.array(all_weights, dtype=list)
+        return all_weights
-- 
2.43.0


From cb5d39678b3191ac8fccd39301f5f19ba552a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 23/39] fix: mollview draws in a figure of its own

---
 pxmcmc/plotting.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 83a4371..decd2f4 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -126,12 +126,9 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
 
 
 def mollview(image, figsize=(10, 8), **kwargs):
-    i = np.random.randint(1000)
-    fig = plt.figure(
-        num=i, figsize=figsize
-    )  # this figure number thing is a bit hacky...
+    fig = plt.figure(figsize=figsize)
     with suppress_stdout():
-        hp.mollview(image, fig=i, **kwargs)
+        hp.mollview(image, fig=fig.number, **kwargs)
         hp.graticule(30)
     return fig
 
-- 
2.43.0


From 504f455bd4363793d72086405f59ce686e1b4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 24/39] fix: plot_wavelet_maps with same_scale uses one colour
 range

---
 pxmcmc/plotting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index decd2f4..036e6bc 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -112,7 +112,10 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     figs.append(plot_map(f_scal.reshape(pyssht.sample_shape(bls[0])), **map_args))
 
     if same_scale:
-        map_args["vmax"] = np.max(f_wav)
+        if map_args.get("vmin") is None:
+            map_args["vmin"] = np.min(f_wav)
+        if map_args.get("vmax") is None:
+            map_args["vmax"] = np.max(f_wav)
 
     scale_start = 0
     for i, bl in enumerate(bls[1:], 1):
-- 
2.43.0


From e7895a1167cbc752217f3e4f5df2709ef54c3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 25/39] fix: plot_wavelet_maps of directional wavelets shows
 the scale it names

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 036e6bc..2333f28 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -123,7 +123,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
         wav = f_wav[scale_start : scale_start + scale_length]
         map_args["title"] = f"{base_title} Wavelet scale {i}"
         figs.append(plot_map(wav.reshape(pyssht.sample_shape(bl)), **map_args))
-        scale_start += scale_length
+        scale_start += scale_length * (2 * dirs - 1)
 
     return figs
 
-- 
2.43.0


From 926af3d8c5590433bed45ccbd7d00cb6d047c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:57 +0000
Subject: [PATCH 26/39] fix: plot_map of maps with bandlimit above 256

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 2333f28..db073dc 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -47,7 +47,7 @@ def plot_map(
     cmap.set_bad(alpha=0)
 
     if oversample:
-        L = 256
+        L = max(256, f.shape[0])
         f = _oversample(f, L)
     else:
         L = f.shape[0]
-- 
2.43.0


From d4dd11a890d9494b4ad688b5dd1bc74b5a0f2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:51 +0000
Subject: [PATCH 27/39] fix: save_mcmc can store attributes larger than 64 kB

---
 pxmcmc/saving.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/saving.py b/pxmcmc/saving.py
index 4e619f2..f3116ff 100644
--- a/pxmcmc/saving.py
+++ b/pxmcmc/saving.py
@@ -14,7 +14,10 @@ def save_mcmc(
     :param string filename: filename without extension.
     :param \**kwargs: additional bits users want to save.
     """
-    with h5py.File(os.path.join(outpath, f"{filename}.hdf5"), "w") as f:
+    # libver allows attributes larger than 64 kB
+    with h5py.File(
+        os.path.join(outpath, f"{filename}.hdf5"), "w", libver="v108"
+    ) as f:
         if hasattr(mcmc, "logPi"):
             f.create_dataset("logposterior", data=mcmc.logPi)
         if hasattr(mcmc, "preds"):
-- 
2.43.0


From 783f5fa687ee7c95fa5720387aa8727bc1d8ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:51 +0000
Subject: [PATCH 28/39] fix: earthtopography plot.py --save_npy no longer fails

---
 experiments/earthtopography/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index aa92ed7..b3abfbd 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -37,8 +37,8 @@ parser.add_argument(
 args = parser.parse_args()
 
 
-def filename(name):
-    return f"{args.directory}/{name}{args.suffix}.png"
+def filename(name, ext="png"):
+    return f"{args.directory}/{name}{args.suffix}.{ext}"
 
 
 # Load results file and extract global parameters
-- 
2.43.0


From cd973cf66af218b56977968e496690448cfe2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:51 +0000
Subject: [PATCH 29/39] fix: earthtopography plot.py reports runs made with
 --makenoise

---
 experiments/earthtopography/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index b3abfbd..5f8ea76 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -135,7 +135,7 @@ diffpmean = plotting.plot_map(
 diffpmean.savefig(filename("diff_mean"))
 
 # If noise was added, plot it
-if "noise" in params and params["noise"]:
+if "noise" in params and np.any(params["noise"]):
     noise = params["noise"].reshape((L, 2 * L - 1)) / 1000
     noise_map = plotting.plot_map(
         noise, title="Added noise", cmap="binary", oversample=False
-- 
2.43.0


From 7dffec1a884d05042c79958d8ba2ac9cd2373203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:51 +0000
Subject: [PATCH 30/39] fix: weaklensing plot.py takes quantiles of real images

---
 experiments/weaklensing/plot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experiments/weaklensing/plot.py b/experiments/weaklensing/plot.py
index 6c0b571..b2adabe 100644
--- a/experiments/weaklensing/plot.py
+++ b/experiments/weaklensing/plot.py
@@ -125,12 +125,11 @@ map_wvlt.savefig(filename("MAP_wvlt"))
 
 # Get everythin in image space
 chain_pix = np.zeros(
-    (file.attrs["nsamples"] - args.burn, pyssht.sample_length(L, Method="MW")),
-    dtype=complex,
+    (file.attrs["nsamples"] - args.burn, pyssht.sample_length(L, Method="MW"))
 )
 for i, sample in enumerate(file["chain"][args.burn :]):
     if setting == "synthesis":
-        chain_pix[i] = wvlttrans.inverse(sample)
+        chain_pix[i] = wvlttrans.inverse(sample).real
     else:
         chain_pix[i] = np.copy(sample)
 
-- 
2.43.0


From 965c90b89949691a5a706dd551deb2299034e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:51 +0000
Subject: [PATCH 31/39] fix: phasevel plot.py's 95% credible interval range is
 at 95%

---
 experiments/phasevel/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/phasevel/plot.py b/experiments/phasevel/plot.py
index e516077..15808ec 100644
--- a/experiments/phasevel/plot.py
+++ b/experiments/phasevel/plot.py
@@ -103,7 +103,7 @@ for i, sample in enumerate(file["chain"][args.burn :]):
         chain_pix[i] = np.copy(sample)
 
 # Calculate and plot the credible interval range
-alpha = 0.01
+alpha = 0.05
 quantiles = np.quantile(chain_pix, (alpha / 2, 1 - alpha / 2), axis=0)
 in_ci = (truth.flatten() >= quantiles[0]) & (truth.flatten() <= quantiles[1])
 ci_range = np.diff(quantiles, axis=0)[0].reshape(mw_shape)
-- 
2.43.0


From 89738bf0948ec32694159320b0916f21617cc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:51 +0000
Subject: [PATCH 32/39] fix: earthtopography main.py accepts MW sampled input

---
 experiments/earthtopography/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/earthtopography/main.py b/experiments/earthtopography/main.py
index c751227..b59e493 100644
--- a/experiments/earthtopography/main.py
+++ b/experiments/earthtopography/main.py
@@ -82,7 +82,7 @@ if "_hpx_" in args.infile:
     topo_d = pys2let.alm2map_mw(pys2let.lm_hp2lm(topo_d_lm, L), L, 0)
 elif "_mw_" in args.infile:
     topo = np.load(args.infile)
-    topo_d = topo.reshape((L, 2 * L - 1))
+    topo_d = topo.flatten()
 else:
     raise ValueError("Check filename")
 
-- 
2.43.0


From 3296f969933090fb121a480e5f2e878b67b42716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:41 +0000
Subject: [PATCH 33/39] fix: count the coefficients of a harmonic wavelet
 transform with the harmonic analysis

With harmonic=True the numbers of wavelet and scaling coefficients were
taken from the pixel-space analysis, so for J_min >= 1 (or directional
wavelets) the blocks were cut in the wrong place and
inverse(forward(x)) differed from x.
---
 pxmcmc/transforms.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/transforms.py b/pxmcmc/transforms.py
index ec288b3..5a41a96 100644
--- a/pxmcmc/transforms.py
+++ b/pxmcmc/transforms.py
@@ -76,6 +76,7 @@ class SphericalWaveletTransform(Transform):
         self.nscales = self.J_max - self.J_min + 1
         self.dirs = dirs
         self.spin = spin
+        self.harmonic = harmonic
 
         self.params = {
             "B": B,
@@ -157,10 +158,8 @@ class SphericalWaveletTransform(Transform):
         """
         Counts the number of wavelet and scaling coefs for
         the multiresolution algorithm
-
-        TODO: CHECK THIS FOR HARMONIC
         """
-        f_mw = np.empty(pyssht.sample_length(self.L), dtype=complex)
-        f_wav, f_scal = pys2let.analysis_px2wav(f_mw, **self.params)
+        size = self.L ** 2 if self.harmonic else pyssht.sample_length(self.L)
+        f_wav, f_scal = self.fwd(np.zeros(size, dtype=complex), **self.params)
         self.nwav, self.nscal = (f_wav.shape[0], f_scal.shape[0])
         self.ncoefs = self.nwav + self.nscal
-- 
2.43.0


From ec583c6f00246274bc16e4866b1c1d7c95593fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:40 +0000
Subject: [PATCH 34/39] fix: Transform base methods take the vector they are
 called with, so a missing one raises NotImplementedError

---
 pxmcmc/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/transforms.py b/pxmcmc/transforms.py
index 5a41a96..7007771 100644
--- a/pxmcmc/transforms.py
+++ b/pxmcmc/transforms.py
@@ -8,25 +8,25 @@ from pxmcmc.utils import expand_mlm, flatten_mlm
 class Transform:
     """Base class to wrap transformations."""
 
-    def forward(self):
+    def forward(self, X):
         """
         e.g. spherical image to spherical harmonics.  Implemented by user in custom child class.
         """
         raise NotImplementedError
 
-    def inverse(self):
+    def inverse(self, X):
         """
         e.g. spherical harmonics to spherical image.  Implemented by user in custom child class.
         """
         raise NotImplementedError
 
-    def forward_adjoint(self):
+    def forward_adjoint(self, X):
         """
         e.g. spherical harmonics to spherical image.  Implemented by user in custom child class.
         """
         raise NotImplementedError
 
-    def inverse_adjoint(self):
+    def inverse_adjoint(self, X):
         """
         e.g. spherical image to spherical harmonics.  Implemented by user in custom child class.
         """
-- 
2.43.0


From ed34ac6f6c36bf6084b2a657f54d2f74afe9e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:15 +0000
Subject: [PATCH 35/39] fix: download_takahasi.py can be run again after a run
 that left output.fits behind

---
 experiments/weaklensing/download_takahasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index 325f732..c682f2e 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -93,7 +93,7 @@ def binary_to_fits(filename):
     print("loading completed")
 
     # example of saving data as a fits file
-    hp.fitsfunc.write_map("output.fits", kappa)
+    hp.fitsfunc.write_map("output.fits", kappa, overwrite=True)
 
 
 def download_binary(filename):
-- 
2.43.0


From 0f6a85db5bb074856f8f450faead3dcb7fd48cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:15 +0000
Subject: [PATCH 36/39] fix: download_takahasi.py takes an interrupted or
 refused download for the complete file

---
 experiments/weaklensing/download_takahasi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index c682f2e..3fb2533 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -104,11 +104,16 @@ def download_binary(filename):
     ind = filename.find("nres")
     nres = int(filename[ind + 4 : ind + 6])
     url = f"http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/sub1/nres{nres}/{filename}"
+    partial = f"{filename}.part"
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         total_length = int(r.headers.get("Content-Length"))
         with tqdm.wrapattr(r.raw, "read", total=total_length, desc="") as raw:
-            with open(filename, "wb") as file:
+            with open(partial, "wb") as file:
                 shutil.copyfileobj(raw, file)
+    if os.path.getsize(partial) != total_length:
+        raise IOError(f"Incomplete download of {url}")
+    os.replace(partial, filename)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 44520b964549746f04407690fc184722e99a4033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:56 +0000
Subject: [PATCH 37/39] fix: download_takahasi.py refuses every nres=14 map

---
 experiments/weaklensing/download_takahasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index 3fb2533..8ca542e 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -124,7 +124,7 @@ if __name__ == "__main__":
     if nres in [12, 13]:
         assert (realisation >= 0) and (realisation <= 107)
     else:
-        assert nres == 0
+        assert realisation == 0
 
     redshift_id = 16  # between 1 and 66
     assert (redshift_id >= 1) and (redshift_id <= 66)
-- 
2.43.0


From 94826c356c507aeb87ceb9bb7adf5ef4c2e11a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:44 +0000
Subject: [PATCH 38/39] fix: data errors stored as small integer or single
 precision numbers

---
 pxmcmc/forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index c836116..071e5a3 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -77,6 +77,8 @@ class ForwardOperator:
                 raise ValueError("Covariance matrix should be square")
             return sparse.csr_matrix(np.linalg.inv(sig_d))
 
+        if isinstance(sig_d, (np.ndarray, np.generic)) and sig_d.dtype.kind in "iuf":
+            sig_d = sig_d.astype(float)  # e.g. squares of int16 overflow
         var = sig_d ** 2
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
-- 
2.43.0


From 7469e37b9094db2b12c3f29932a57843753b70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 39/39] fix: pixel masks let NaN signals through instead of
 refusing them

---
 pxmcmc/measurements.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 8707735..44e6d39 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -251,13 +251,14 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is of incorrect shape.
 
         """
-        if f is not f:
-            raise ValueError("Signal is NaN.")
-
         if f.shape != self.shape:
             raise ValueError("Signal shape is incorrect for mw-sampling")
 
-        return f[self.mask]
+        f = f[self.mask]
+        if np.isnan(f).any():
+            raise ValueError("Signal is NaN.")
+
+        return f
 
     def mask_adjoint(self, x):
         """Applies given mask adjoint to observations
@@ -271,7 +272,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is nan
 
         """
-        if x is not x:
+        if np.isnan(x).any():
             raise ValueError("Signal is NaN.")
 
         f = np.zeros(self.shape, dtype=complex)
-- 
2.43.0

