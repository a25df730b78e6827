From 60232f6f05174940d4897c5f85729a75ae917212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:44 +0000
Subject: [PATCH 01/27] fix: save_mcmc never reports success for a torn file
 nor destroys the previous save

A write error while a small dataset was being closed was swallowed by h5py, so
save_mcmc returned normally with zeros in the file; a failed or interrupted save
left a partial file under the final name (after truncating the one that was
there); and a full disk made HDF5 crash the interpreter.
---
 pxmcmc/saving.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/saving.py b/pxmcmc/saving.py
index 4e619f2..b0b92f3 100644
--- a/pxmcmc/saving.py
+++ b/pxmcmc/saving.py
@@ -1,7 +1,25 @@
 import os
+from contextlib import contextmanager
 import h5py
 
 
+@contextmanager
+def _atomic_hdf5(path):
+    """
+    Builds an HDF5 file in memory and moves it into place once it is completely on disk.
+    The bytes are written by Python rather than by the HDF5 library, which can lose the error of a failed write (h5py ignores errors when a dataset is deallocated) or crash on it.
+    """
+    part = f"{path}.part"
+    with h5py.File(part, "w", driver="core", backing_store=False) as f:
+        try:
+            yield f
+        finally:
+            f.flush()
+            with open(part, "wb") as out:
+                out.write(f.id.get_file_image())
+    os.replace(part, path)
+
+
 def save_mcmc(
     mcmc, params, outpath, filename="outputs", **kwargs,
 ):
@@ -14,7 +32,7 @@ def save_mcmc(
     :param string filename: filename without extension.
     :param \**kwargs: additional bits users want to save.
     """
-    with h5py.File(os.path.join(outpath, f"{filename}.hdf5"), "w") as f:
+    with _atomic_hdf5(os.path.join(outpath, f"{filename}.hdf5")) as f:
         if hasattr(mcmc, "logPi"):
             f.create_dataset("logposterior", data=mcmc.logPi)
         if hasattr(mcmc, "preds"):
-- 
2.43.0


From 60ad86cc711e3258519bfae87433ddc21be10a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 02/27] fix: PxMALA weighs proposals with the density of the
 kernel that made them

A proposal is drawn as X + delta * grad + sqrt(2 * delta) * w, i.e. from a Gaussian
with variance 2 * delta, but the transition density used another mean, squared the
norm twice and multiplied by delta / 2, so the accept/reject step did not leave the
posterior invariant.
---
 pxmcmc/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 45cf316..bd28ea7 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -284,8 +284,8 @@ class PxMALA(MYULA):
         """
         gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
         return (
-            -(1 / 2 * self.delta)
-            * np.sum((X2 - X1 - (self.delta / 2) * gradlogpiX1) ** 2) ** 2
+            -(1 / (4 * self.delta))
+            * np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2)
         )
 
 
-- 
2.43.0


From 233786ff61b67f9c9824b4066d7df70167ffca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 03/27] fix: log posterior uses the Gaussian log likelihood
 that the gradient descends

calc_gradg returns the gradient of half the weighted squared misfit.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index bd28ea7..be05aa9 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -78,7 +78,7 @@ class PxMCMC:
         diff = self.forward.data - preds
         L2 = np.vdot(diff, self.forward.invcov @ diff)
         prior = self.prior.prior(X)
-        logPi = -self.mu * prior - L2
+        logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-- 
2.43.0


From 37e564edb790d23452bc5fa1df8cc2ccb1669e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 04/27] fix: PxMALA saves the chain, not only the iterations
 that accepted

Dropping the repeats of rejected steps biases the saved samples and breaks the
documented meaning of ngap.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index be05aa9..c89662e 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -260,7 +260,7 @@ class PxMALA(MYULA):
                 self.deltas_trace.append(self.delta)
 
             if i >= self.nburn:
-                if (self.ngap == 0 or (i - self.nburn) % self.ngap == 0) and accept:
+                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:
                     self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)
                     j += 1
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-- 
2.43.0


From 058f2f05b5047bde0a6659db360336d1111a3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 05/27] fix: SKROCK stages follow the published recursion

K_j = mu_j delta grad(K_{j-1}) + nu_j K_{j-1} + kappa_j K_{j-2}, with T_j evaluated
at omega_0 and kappa_j = 1 - nu_j.
---
 pxmcmc/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index c89662e..7edae43 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -363,8 +363,7 @@ class SKROCK(PxMCMC):
                 * self.delta
                 * self._gradlogpi(self._K_recursion(X, s - 1, Z))
                 + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s]
-                - self._K_recursion(X, s - 2, Z)
+                + self.ks[s] * self._K_recursion(X, s - 2, Z)
             )
 
     def _recursion_coefs(self):
@@ -377,7 +376,7 @@ class SKROCK(PxMCMC):
         self.ks[1] = self.s * self.omega_1 / self.omega_0
 
         for j in range(2, self.s + 1):
-            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_1, j)
+            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_0, j)
             self.mus[j] = 2 * self.omega_1 * cheb_ratio
             self.nus[j] = 2 * self.omega_0 * cheb_ratio
-            self.ks[j] = 1 - self.nus[0]
+            self.ks[j] = 1 - self.nus[j]
-- 
2.43.0


From 640fc8404d29380fa65b9b5fcf65cfca4f65d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 06/27] fix: progress output does not need the printed
 quantities to be tracked

---
 pxmcmc/mcmc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 7edae43..72ebb5f 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -171,9 +171,9 @@ class MYULA(PxMCMC):
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                     self._print_progress(
                         j - 1,
-                        self.logPi[j - 1],
-                        L2=self.L2s[j - 1],
-                        prior=self.priors[j - 1],
+                        logPi,
+                        L2=L2,
+                        prior=prior,
                     )
             else:
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
@@ -312,6 +312,7 @@ class SKROCK(PxMCMC):
         i = 0  # total samples
         j = 0  # saved samples (excludes burn-in and thinned samples)
         X_curr, curr_preds = self._initial_sample(start_point)
+        logPi = L2 = prior = 0.0  # nothing saved yet
         while j < self.nsamples:
             X_prop = self.chain_step(X_curr)
             prop_preds = self.forward.forward(X_prop)
@@ -327,9 +328,9 @@ class SKROCK(PxMCMC):
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                 self._print_progress(
                     j - 1,
-                    self.logPi[j - 1],
-                    L2=self.L2s[j - 1],
-                    prior=self.priors[j - 1],
+                    logPi,
+                    L2=L2,
+                    prior=prior,
                 )
             i += 1
 
-- 
2.43.0


From dc55cb4825d52d0b07d0b966938820d451ec3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 07/27] fix: tracked predictions of complex data keep their
 imaginary part

---
 pxmcmc/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 72ebb5f..78a6af4 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -115,7 +115,8 @@ class PxMCMC:
             self.logPi = np.zeros(self.nsamples)
         if "predictions" in self.track:
             self.preds = np.zeros(
-                (self.nsamples, len(self.forward.data)), dtype=float
+                (self.nsamples, len(self.forward.data)),
+                dtype=complex if np.iscomplexobj(self.forward.data) else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From 685b7370f79a90984f4046b779f9f380dd043609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 08/27] fix: wavelet priors leave the threshold array of the
 caller alone

---
 pxmcmc/prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 661011d..108dab7 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -78,7 +78,7 @@ class S2_Wavelets_L1(L1):
             self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = self.T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
@@ -105,7 +105,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             self._get_weights()
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = self.T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
-- 
2.43.0


From 62dfc2f8287008defc0c3de6bb87c32c5b5ceb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 09/27] fix: accept a covariance matrix as sig_d as documented

---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 3f3bbd3..16be580 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -75,7 +75,7 @@ class ForwardOperator:
         if isinstance(sig_d, np.ndarray) and len(sig_d.shape) == 2:
             if sig_d.shape[0] != sig_d.shape[1]:
                 raise ValueError("Covariance matrix should be square")
-            return sparse.linalg.inv(sig_d)
+            return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
         if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-- 
2.43.0


From e69e44502ba15ada32b977b1f8948a80c47903fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 10/27] fix: suppress_stdout restores stdout when used from
 several threads

---
 pxmcmc/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 5af11de..914ac44 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -3,6 +3,7 @@ import healpy as hp
 from contextlib import contextmanager
 import os
 import sys
+import threading
 import pys2let
 import pyssht
 from astropy.coordinates import SkyCoord
@@ -88,13 +89,16 @@ def _sign(z):
     return z / abs
 
 
+_stdout_lock = threading.RLock()
+
+
 @contextmanager
 def suppress_stdout():
     """
     Suppresses stdout from some healpy functions
     :meta private:
     """
-    with open(os.devnull, "w") as devnull:
+    with _stdout_lock, open(os.devnull, "w") as devnull:
         old_stdout = sys.stdout
         sys.stdout = devnull
         try:
-- 
2.43.0


From 789db760ed0b4a05ad343e5a7aab58195b4f1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 11/27] fix: mollview draws on a figure of its own

A random figure number could be that of a figure already in use, and drawing it
moved the global random stream of the samplers.
---
 pxmcmc/plotting.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index de70c24..724fdb2 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -126,12 +126,9 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
 
 
 def mollview(image, figsize=(10, 8), **kwargs):
-    i = np.random.randint(1000)
-    fig = plt.figure(
-        num=i, figsize=figsize
-    )  # this figure number thing is a bit hacky...
+    fig = plt.figure(figsize=figsize)
     with suppress_stdout():
-        hp.mollview(image, fig=i, **kwargs)
+        hp.mollview(image, fig=fig.number, **kwargs)
         hp.graticule(30)
     return fig
 
-- 
2.43.0


From dbfbb6bc0a02bccd73364e9e4b1437c0a140f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 12/27] fix: plot_map works with matplotlib >= 3.9, where
 cm.get_cmap is gone

---
 pxmcmc/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 724fdb2..a9b666c 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -1,7 +1,6 @@
 import numpy as np
 import healpy as hp
 import matplotlib.pyplot as plt
-from matplotlib import cm
 import copy
 import pyssht
 import pys2let
@@ -44,7 +43,7 @@ def plot_map(
 
     :return: matplotlib figure
     """
-    cmap = copy.copy(cm.get_cmap(cmap))
+    cmap = copy.copy(plt.get_cmap(cmap))
     cmap.set_bad(alpha=0)
 
     if oversample:
-- 
2.43.0


From 2519bbc69734e9330fc707828ec92748da9d737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 13/27] fix: plot_map does not write the mask into the map it
 was given

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index a9b666c..1586c2d 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -58,7 +58,7 @@ def plot_map(
         vmin = -cbar_end
 
     if mask is not None:
-        f[mask] = np.nan
+        f = np.where(mask, np.nan, f)
     f_plt, _ = pyssht.mollweide_projection(f, L)
     fig = plt.figure(figsize=(20, 10))
     if not cbar:
-- 
2.43.0


From 81bd7866927dc867c5656cae1d50b12eead03e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:13 +0000
Subject: [PATCH 14/27] fix: power weighted prior works when all wavelet scales
 share a bandlimit

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 108dab7..1883861 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -146,4 +146,4 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             thetas, _ = pyssht.sample_positions(effective_L)
             weights = (weights.T * np.sin(thetas)).T
             all_weights.append(weights)
-        return np.array(all_weights, dtype=list)
+        return all_weights
-- 
2.43.0


From bb5ebf8e7bc7eb18cd5cf76d1824a6a37592502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:52 +0000
Subject: [PATCH 15/27] fix: plot_evolution works when the best sample was
 saved more than once

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 1586c2d..cae8a75 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -143,7 +143,7 @@ def plot_evolution(logposteriors, L2s, L1s, figsize=(10, 8)):
 
     :return: matplotlib figure
     """
-    MAP_idx = np.where(logposteriors == max(logposteriors))
+    MAP_idx = np.argmax(logposteriors)
     fig = plt.figure(figsize=figsize)
     plt.subplot(3, 1, 1)
     plt.plot(-logposteriors)
-- 
2.43.0


From b51e940ab4e146edc046eeae70f160c62bf5e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:19 +0000
Subject: [PATCH 16/27] fix: plot_wavelet_maps works without oversampling

---
 pxmcmc/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index cae8a75..decd2f4 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -102,6 +102,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     f_wav, f_scal = pys2let.analysis_px2wav(
         f.flatten().astype(complex), B, L, J_min, dirs, spin, upsample=0
     )
+    f_wav, f_scal = f_wav.real.copy(), f_scal.real.copy()
     figs = []
     if "title" in map_args:
         base_title = map_args["title"]
@@ -111,7 +112,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     figs.append(plot_map(f_scal.reshape(pyssht.sample_shape(bls[0])), **map_args))
 
     if same_scale:
-        map_args["vmax"] = np.max(f_wav).real
+        map_args["vmax"] = np.max(f_wav)
 
     scale_start = 0
     for i, bl in enumerate(bls[1:], 1):
-- 
2.43.0


From 1a6bb14664d7a399c954258c454f6fd881498ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 17/27] fix: path matrix cache of the phase velocity experiment
 is never left half written

---
 experiments/phasevel/main.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/experiments/phasevel/main.py b/experiments/phasevel/main.py
index 01a26c0..0199ffd 100644
--- a/experiments/phasevel/main.py
+++ b/experiments/phasevel/main.py
@@ -7,7 +7,7 @@ https://doi.org/10.1093/rasti/rzac010
 
 import numpy as np
 import argparse
-from os import path
+from os import getpid, path, replace
 from scipy import sparse
 from greatcirclepaths import GreatCirclePath
 from multiprocessing import Pool
@@ -131,7 +131,10 @@ if __name__ == "__main__":
         path_matrix = sparse.load_npz(args.pathsfile)
     else:
         path_matrix = get_path_matrix(start, stop, L)
-        sparse.save_npz(args.pathsfile, path_matrix)
+        # written beside the final name first: other jobs never find half a file
+        tmpfile = f"{args.pathsfile}.{getpid()}.npz"
+        sparse.save_npz(tmpfile, path_matrix)
+        replace(tmpfile, args.pathsfile)
 
     assert path_matrix.shape[0] == len(data)
 
-- 
2.43.0


From 787e8f6d4f2873f9469a672d3c28635c43ff2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:10 +0000
Subject: [PATCH 18/27] fix: phase velocity experiment accepts a data file with
 a single path

---
 experiments/phasevel/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/phasevel/main.py b/experiments/phasevel/main.py
index 0199ffd..1c1f8df 100644
--- a/experiments/phasevel/main.py
+++ b/experiments/phasevel/main.py
@@ -27,7 +27,7 @@ def read_datafile(datafile):
     Coordinates given in degrees
     """
     start_lat, start_lon, stop_lat, stop_lon, data, sig_d, mima, nsim = np.loadtxt(
-        datafile, unpack=True
+        datafile, unpack=True, ndmin=2
     )
     start = np.stack([start_lat, start_lon], axis=1)
     stop = np.stack([stop_lat, stop_lon], axis=1)
-- 
2.43.0


From aea9fe6e8498f0af2e0252b7907bb68fada7331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:13 +0000
Subject: [PATCH 19/27] fix: drift on complex data is the gradient of the
 reported log posterior

The inverse covariance of complex data was complex, which rotated the
gradient by 45 degrees. Its real part, the one that enters the log
posterior, is kept.
---
 pxmcmc/forward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 16be580..edb48d9 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -79,7 +79,8 @@ class ForwardOperator:
 
         var = sig_d ** 2
         if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-            var = var / np.sqrt(2) * (1 + 1j)
+            # real, so that the gradient is that of the real log likelihood
+            var = var * np.sqrt(2)
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
-- 
2.43.0


From 98686cf921b24cd561e2d99feefb923438c9e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:37 +0000
Subject: [PATCH 20/27] fix: chains of real parameters stay real when the data
 are complex

The recorded samples were the real part of a complex state, so that
predictions, misfit and prior of a row belonged to another state.
---
 pxmcmc/mcmc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 78a6af4..979efd2 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -85,9 +85,13 @@ class PxMCMC:
         gradf = (X - self.prior.proxf(X)) / self.lmda
         if preds is None:
             preds = self.forward.forward(X)
-        gradg = self.forward.calc_gradg(preds)
+        gradg = self._gradg(preds)
         return -gradf - gradg
 
+    def _gradg(self, preds):
+        gradg = self.forward.calc_gradg(preds)
+        return gradg if self.complex else np.real(gradg)
+
     def _print_progress(self, i, logpi, **kwargs):
         print(
             f"{i+1:,}/{self.nsamples:,} - logposterior: {logpi:.8e} - "
@@ -156,7 +160,7 @@ class MYULA(PxMCMC):
         j = 0  # saved samples (excludes burn-in and thinned samples)
         X_curr, curr_preds = self._initial_sample(start_point)
         while j < self.nsamples:
-            gradg = self.forward.calc_gradg(curr_preds)
+            gradg = self._gradg(curr_preds)
             proxf = self.prior.proxf(X_curr)
             X_prop = self.chain_step(X_curr, proxf, gradg)
             prop_preds = self.forward.forward(X_prop)
@@ -225,13 +229,13 @@ class PxMALA(MYULA):
         i = 0
         j = 0
         X_curr, curr_preds = self._initial_sample(start_point)
-        gradg_curr = self.forward.calc_gradg(curr_preds)
+        gradg_curr = self._gradg(curr_preds)
         proxf_curr = self.prior.proxf(X_curr)
         logpiXc, L2Xc, priorXc = self.logpi(X_curr, curr_preds)
         while j < self.nsamples:
             X_prop = self.chain_step(X_curr, proxf_curr, gradg_curr)
             prop_preds = self.forward.forward(X_prop)
-            gradg_prop = self.forward.calc_gradg(prop_preds)
+            gradg_prop = self._gradg(prop_preds)
             proxf_prop = self.prior.proxf(X_prop)
 
             logtransXcXp = self.calc_logtransition(
-- 
2.43.0


From e541350eda9344fb90b65a50eb2387124e71b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:04 +0000
Subject: [PATCH 21/27] fix: proximal step of an analysis prior keeps real
 parameters real

Transforms return complex vectors whose imaginary parts are rounding errors. In the analysis setting they entered the state of a chain of real parameters, where they can grow until the recorded (real) samples are not the states of the chain.
---
 pxmcmc/mcmc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 979efd2..2335636 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -82,7 +82,7 @@ class PxMCMC:
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-        gradf = (X - self.prior.proxf(X)) / self.lmda
+        gradf = (X - self._proxf(X)) / self.lmda
         if preds is None:
             preds = self.forward.forward(X)
         gradg = self._gradg(preds)
@@ -92,6 +92,10 @@ class PxMCMC:
         gradg = self.forward.calc_gradg(preds)
         return gradg if self.complex else np.real(gradg)
 
+    def _proxf(self, X):
+        proxf = self.prior.proxf(X)
+        return proxf if self.complex else np.real(proxf)
+
     def _print_progress(self, i, logpi, **kwargs):
         print(
             f"{i+1:,}/{self.nsamples:,} - logposterior: {logpi:.8e} - "
@@ -161,7 +165,7 @@ class MYULA(PxMCMC):
         X_curr, curr_preds = self._initial_sample(start_point)
         while j < self.nsamples:
             gradg = self._gradg(curr_preds)
-            proxf = self.prior.proxf(X_curr)
+            proxf = self._proxf(X_curr)
             X_prop = self.chain_step(X_curr, proxf, gradg)
             prop_preds = self.forward.forward(X_prop)
 
@@ -230,13 +234,13 @@ class PxMALA(MYULA):
         j = 0
         X_curr, curr_preds = self._initial_sample(start_point)
         gradg_curr = self._gradg(curr_preds)
-        proxf_curr = self.prior.proxf(X_curr)
+        proxf_curr = self._proxf(X_curr)
         logpiXc, L2Xc, priorXc = self.logpi(X_curr, curr_preds)
         while j < self.nsamples:
             X_prop = self.chain_step(X_curr, proxf_curr, gradg_curr)
             prop_preds = self.forward.forward(X_prop)
             gradg_prop = self._gradg(prop_preds)
-            proxf_prop = self.prior.proxf(X_prop)
+            proxf_prop = self._proxf(X_prop)
 
             logtransXcXp = self.calc_logtransition(
                 X_curr, X_prop, proxf_curr, gradg_curr
-- 
2.43.0


From f97bc7d9de4519cb4ef77453ab0eba68f06a6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 22/27] fix: topography plot program can save its summary maps
 as arrays

---
 experiments/earthtopography/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index aa92ed7..b3abfbd 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -37,8 +37,8 @@ parser.add_argument(
 args = parser.parse_args()
 
 
-def filename(name):
-    return f"{args.directory}/{name}{args.suffix}.png"
+def filename(name, ext="png"):
+    return f"{args.directory}/{name}{args.suffix}.{ext}"
 
 
 # Load results file and extract global parameters
-- 
2.43.0


From 916ef59c1d2debb44bc006cde0c2e5bd72381f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 23/27] fix: topography plot program works on results with
 added noise

---
 experiments/earthtopography/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index b3abfbd..5f8ea76 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -135,7 +135,7 @@ diffpmean = plotting.plot_map(
 diffpmean.savefig(filename("diff_mean"))
 
 # If noise was added, plot it
-if "noise" in params and params["noise"]:
+if "noise" in params and np.any(params["noise"]):
     noise = params["noise"].reshape((L, 2 * L - 1)) / 1000
     noise_map = plotting.plot_map(
         noise, title="Added noise", cmap="binary", oversample=False
-- 
2.43.0


From a7c4f6e77ac2d60df75a2dc195958d145543b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 24/27] fix: weak lensing plot program gets past its credible
 interval map

---
 experiments/weaklensing/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/weaklensing/plot.py b/experiments/weaklensing/plot.py
index 6c0b571..e9950ef 100644
--- a/experiments/weaklensing/plot.py
+++ b/experiments/weaklensing/plot.py
@@ -135,7 +135,7 @@ for i, sample in enumerate(file["chain"][args.burn :]):
         chain_pix[i] = np.copy(sample)
 
 # Get and plot the uncertainty
-ci_range = uncertainty.credible_interval_range(chain_pix).reshape(mw_shape)
+ci_range = uncertainty.credible_interval_range(chain_pix.real).reshape(mw_shape)
 ci_map = plotting.plot_map(
     np.ascontiguousarray(ci_range.real),
     title="95% credible interval range",
-- 
2.43.0


From 84134221dcd7971bc9d00cbfa71ac5a935fcdcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 25/27] fix: phase velocity plot program reads a data file with
 a single path

---
 experiments/phasevel/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/phasevel/plot.py b/experiments/phasevel/plot.py
index e516077..c99681a 100644
--- a/experiments/phasevel/plot.py
+++ b/experiments/phasevel/plot.py
@@ -156,7 +156,7 @@ print(f"Mean SNR: {snr(truth, diff_mean):.2f} dB")
 # Calculate the prediction error
 path_matrix = sparse.load_npz("0S254L28.npz")
 pathint = PathIntegral(path_matrix)
-data_obs = np.loadtxt("synthetic_GDM40_0S254_L28.txt")[:, 4]
+data_obs = np.loadtxt("synthetic_GDM40_0S254_L28.txt", ndmin=2)[:, 4]
 preds = pathint.forward(MAP.flatten())
 rel_squared_error = (norm(preds - data_obs) / norm(data_obs)) ** 2
 print(f"MAP R2E: {rel_squared_error:.2e}")
-- 
2.43.0


From 0a3e4302dfe1183f896b7e6be40a304a82ce3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 26/27] fix: an incomplete or refused download is never taken
 for the lensing map

---
 experiments/weaklensing/download_takahasi.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index 325f732..34d5bde 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -104,11 +104,21 @@ def download_binary(filename):
     ind = filename.find("nres")
     nres = int(filename[ind + 4 : ind + 6])
     url = f"http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/sub1/nres{nres}/{filename}"
-    with requests.get(url, stream=True) as r:
-        total_length = int(r.headers.get("Content-Length"))
-        with tqdm.wrapattr(r.raw, "read", total=total_length, desc="") as raw:
-            with open(filename, "wb") as file:
-                shutil.copyfileobj(raw, file)
+    # downloaded beside the final name first: an incomplete file is never taken for the map
+    tmpfile = f"{filename}.{os.getpid()}"
+    try:
+        with requests.get(url, stream=True) as r:
+            r.raise_for_status()
+            total_length = int(r.headers.get("Content-Length"))
+            with tqdm.wrapattr(r.raw, "read", total=total_length, desc="") as raw:
+                with open(tmpfile, "wb") as file:
+                    shutil.copyfileobj(raw, file)
+        if os.path.getsize(tmpfile) != total_length:
+            raise IOError(f"Download of {url} is incomplete")
+        os.replace(tmpfile, filename)
+    finally:
+        if os.path.exists(tmpfile):
+            os.remove(tmpfile)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 174eafc635d09e79df0848de3250beaaaccec279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 27/27] fix: an interrupted conversion of the lensing map does
 not block the next

---
 experiments/weaklensing/download_takahasi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index 34d5bde..e73f66d 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -13,7 +13,7 @@ from tqdm import tqdm
 import shutil
 
 
-def binary_to_fits(filename):
+def binary_to_fits(filename, outfile="output.fits"):
     """
     Conversion from binary data to fits
     Taken from http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/read.py
@@ -93,7 +93,7 @@ def binary_to_fits(filename):
     print("loading completed")
 
     # example of saving data as a fits file
-    hp.fitsfunc.write_map("output.fits", kappa)
+    hp.fitsfunc.write_map(outfile, kappa, overwrite=True)
 
 
 def download_binary(filename):
@@ -143,7 +143,9 @@ if __name__ == "__main__":
             print("Downloading Takahasi N-body simulation")
             download_binary(filename_bin)
         print(f"Converting binary file {filename_bin} to fits {filename_fits}")
-        binary_to_fits(filename_bin)
-        os.rename("output.fits", filename_fits)
+        # converted beside the final name: not in the way of an earlier or another conversion
+        tmpfile = f"{os.getpid()}_{filename_fits}"
+        binary_to_fits(filename_bin, tmpfile)
+        os.rename(tmpfile, filename_fits)
     else:
         print(f"{filename_fits} already found!")
-- 
2.43.0

