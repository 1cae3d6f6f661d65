From 693d74bb93620eeb0a1c6fa83cff4ce39c77d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 01/24] fix: load() could not read any saved file (object dtype
 read of an HDF5 dataset)

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0cc56b7..a87bcb0 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -337,7 +337,7 @@ def load(filename=None):
 
         # Extract all the data.
         for key in input_file:
-            sim_data[key] = np.array(input_file[key], dtype=object)
+            sim_data[key] = np.array(input_file[key])
         # _end_for_
 
     # _end_with_
-- 
2.43.0


From 9c6693989f4b0548aec4ed2e14603dcdd9cf3678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 02/24] fix: random seed 0 was treated as 'no seed given'

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index ada9ed5..c83ef48 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -18,7 +18,7 @@ class StochasticProcess(object):
         :param single_dim: single dimensional flag.
         """
         # Create a random number generator.
-        if r_seed:
+        if r_seed is not None:
             self.rand_g = default_rng(SeedSequence(r_seed))
         else:
             self.rand_g = default_rng()
-- 
2.43.0


From ca75e5652c545e8302111d71213fe1233066fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 03/24] fix: Lorenz models refused a scalar noise value (0-d
 arrays are not np.isscalar)

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index b1133ac..f62d84a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -65,7 +65,7 @@ class Lorenz63(StochasticProcess):
         theta = np.asarray(theta)
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(3)
 
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index e6be786..5212d4a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -143,7 +143,7 @@ class Lorenz96(StochasticProcess):
         self.dim_d = dim_d
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(dim_d)
 
-- 
2.43.0


From 0583f6a580f3f8537f285c050bca48d7c3f8b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 04/24] fix: Lorenz sigma setters accepted indefinite noise and
 could leave sigma without its inverse

---
 src/dynamics/lorenz_63.py | 11 ++++++-----
 src/dynamics/lorenz_96.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f62d84a..d9a3496 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -149,16 +149,17 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
 
-        # Make the change.
-        self._sigma = new_value
+        # Compute the inverse before making any change, so
+        # that a failure leaves the object as it was.
+        sig_inv, _ = chol_inv(new_value)
 
-        # Update the inverse matrix.
-        self.sig_inv, _ = chol_inv(self._sigma)
+        # Make the change.
+        self._sigma, self.sig_inv = new_value, sig_inv
     # _end_def_
 
     @property
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 5212d4a..a61b8a8 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -226,14 +226,15 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
-        # Make the change.
-        self._sigma = new_value
+        # Compute the inverse before making any change, so
+        # that a failure leaves the object as it was.
+        sig_inv, _ = chol_inv(new_value)
 
-        # Update the inverse matrix.
-        self.sig_inv, _ = chol_inv(self._sigma)
+        # Make the change.
+        self._sigma, self.sig_inv = new_value, sig_inv
     # _end_def_
 
     @property
-- 
2.43.0


From ba7a2d5f1db440420723bd3646898da56665513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 05/24] fix: Lorenz sample paths used the upper Cholesky factor
 (wrong noise covariance for non-diagonal sigma)

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index d9a3496..a20091a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -210,7 +210,7 @@ class Lorenz63(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : Input matrix was not positive definite."
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index a61b8a8..2632721 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -289,7 +289,7 @@ class Lorenz96(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : The input matrix was not positive definite."
-- 
2.43.0


From 79355b53b317985cd341146349c942e6bd2fc7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 06/24] fix: save() lost write errors that HDF5 meets while
 closing a dataset

---
 src/var_bayes/simulation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index a87bcb0..0dd797c 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -303,9 +303,13 @@ class Simulation(object):
                     # _end_if_
 
                     # Default compressions level is '4'.
-                    out_file.create_dataset(key, data=data[key],
-                                            shape=data[key].shape,
-                                            compression='gzip')
+                    dset = out_file.create_dataset(key, data=data[key],
+                                                   shape=data[key].shape,
+                                                   compression='gzip')
+
+                    # Force the data to the file while errors can still be
+                    # reported: those met when a dataset closes are lost.
+                    dset.flush()
                 # _end_for_
             # _end_with_
         # _end_if_
-- 
2.43.0


From 3069719276740d8e9957d0780afdb857f9b8d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 07/24] fix: a failed save() left a loadable partial file and
 destroyed the previous results

---
 src/var_bayes/simulation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0dd797c..c129f5b 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -288,9 +288,15 @@ class Simulation(object):
             # Create the output filename. Remove spaces (if any).
             file_out = Path(self.name.strip().replace(" ", "_") + ".h5")
 
+            # The data are written to a temporary file first, which takes
+            # the final name only when it is complete.  In this way a save
+            # that fails (or is interrupted) leaves no partial results, and
+            # does not destroy the ones that were stored before.
+            file_tmp = file_out.with_name(file_out.name + ".tmp")
+
             # Save the data to an 'HDF5' file format.
             # NOTE:  Create file; truncate if exists.
-            with h5py.File(file_out, 'w') as out_file:
+            with h5py.File(file_tmp, 'w') as out_file:
                 # Local reference.
                 data = self.output
 
@@ -312,6 +318,9 @@ class Simulation(object):
                     dset.flush()
                 # _end_for_
             # _end_with_
+
+            # Move the complete file to its final name.
+            file_tmp.replace(file_out)
         # _end_if_
     # _end_def_
 
-- 
2.43.0


From a06109f7a58006ea6fb585dc1277ff4496cbe838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 08/24] fix: run() could report moments and multipliers of a
 point other than the solution

---
 src/var_bayes/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index c129f5b..f0e500e 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -262,6 +262,11 @@ class Simulation(object):
         # Store the optimization minimum.
         self.output["fx"] = fx
 
+        # The last point that was evaluated is not always the one that
+        # the optimizer returned, so bring the marginal moments and the
+        # Lagrange multipliers in line with the solution.
+        vgpa.free_energy(x)
+
         # Merge the outputs in one dict.
         self.output.update(vgpa.arg_out)
     # _end_def_
-- 
2.43.0


From a91b355b9debfd6f6b0944b1f4d8abea96f21049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 09/24] fix: setup() changed prior arrays of the caller's
 parameters in place

---
 src/var_bayes/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index f0e500e..3ee8b4c 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -172,8 +172,8 @@ class Simulation(object):
             self.m_data["s0"] = 0.2 * np.eye(dim_d)
 
             # Adjust the prior values.
-            self.m_data["mu0"] *= np.ones(dim_d)
-            self.m_data["tau0"] *= np.eye(dim_d)
+            self.m_data["mu0"] = self.m_data["mu0"] * np.ones(dim_d)
+            self.m_data["tau0"] = self.m_data["tau0"] * np.eye(dim_d)
         # _end_if_
     # _end_def_
 
-- 
2.43.0


From e07f66757833bc445a11e7f38edc6ab4ece862c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:50 +0000
Subject: [PATCH 10/24] fix: SCG returned a re-evaluated value instead of the
 accepted one (wrong for noisy objectives)

---
 src/numerics/optim_scg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index b5ab4fd..c3ce40f 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -147,7 +147,7 @@ class SCG(object):
                 # And check for termination.
                 if kappa < eps_float:
                     # Copy the value.
-                    fx = f_now
+                    fx = f_old
 
                     # Update the statistic.
                     self.stats["MaxIt"] = j+1
@@ -241,7 +241,7 @@ class SCG(object):
                     # If the gradient is zero then exit.
                     if np.isclose(grad_new.T.dot(grad_new), 0.0):
                         # Copy the new value.
-                        fx = f_now
+                        fx = f_old
 
                         # Update the statistic.
                         self.stats["MaxIt"] = j + 1
-- 
2.43.0


From a1c3c1b25bf636365c29b77263e3816e4d9b03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:50 +0000
Subject: [PATCH 11/24] fix: SCG statistics carried over from a previous call
 of the same object

---
 src/numerics/optim_scg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index c3ce40f..fbb9f1f 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -83,6 +83,12 @@ class SCG(object):
         :return: 1)  x: the point where the minimum was found,
                  2) fx: the function value (at the minimum point).
         """
+        # Statistics describe a single optimization: start afresh
+        # (do not carry over what a previous call has recorded).
+        self.stats = {"MaxIt": self.nit, "fx": np.zeros(self.nit),
+                      "dfx": np.zeros(self.nit), "f_eval": 0.0,
+                      "df_eval": 0.0, "beta": np.zeros(self.nit)}
+
         # Make a local copy of the function.
         _copy = np.copy
 
-- 
2.43.0


From 94e77309429147818bc0344b6b6785248fe134e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 12/24] fix: collect_obs() failed for array masks and for masks
 with one observed component

---
 src/dynamics/stochastic_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index c83ef48..5d45035 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -178,7 +178,7 @@ class StochasticProcess(object):
         obs_y = np.take(self.xt, obs_t, axis=0)
 
         # Check if a mask has been given.
-        if h_mask:
+        if h_mask is not None:
             # Here we have (d < D)
             obs_y = obs_y[:, h_mask]
         # _end_if_
@@ -187,7 +187,7 @@ class StochasticProcess(object):
         dim_d = 1 if obs_y.ndim == 1 else obs_y.shape[-1]
 
         # Add noise according to the observation dimensions.
-        if dim_d == 1:
+        if obs_y.ndim == 1:
             # Scalar value.
             obs_noise = rn
 
-- 
2.43.0


From 4f32de14bfefc44dac92b36e3aacf3d1cca2d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 13/24] fix: not-a-number noise (and OU drift) was accepted as
 strictly positive

---
 src/dynamics/double_well.py        | 4 ++--
 src/dynamics/ornstein_uhlenbeck.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 884b569..6fa7f68 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -37,7 +37,7 @@ class DoubleWell(StochasticProcess):
         print(" Creating Double-Well process.")
 
         # Check value.
-        if sigma <= 0.0:
+        if not sigma > 0.0:
             raise ValueError(f" {self.__class__.__name__}:"
                              f" The diffusion noise value: {sigma},"
                              f" should be strictly positive.")
@@ -94,7 +94,7 @@ class DoubleWell(StochasticProcess):
         """
 
         # Accept only positive values.
-        if new_value <= 0.0:
+        if not new_value > 0.0:
             # Raise an error with a message.
             raise ValueError(f" {self.__class__.__name__}: The sigma value:"
                              f" {new_value}, should be strictly positive.")
diff --git a/src/dynamics/ornstein_uhlenbeck.py b/src/dynamics/ornstein_uhlenbeck.py
index af89dd0..baaf494 100644
--- a/src/dynamics/ornstein_uhlenbeck.py
+++ b/src/dynamics/ornstein_uhlenbeck.py
@@ -31,7 +31,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         print(" Creating Ornstein-Uhlenbeck process.")
 
         # Check noise value.
-        if sigma <= 0.0:
+        if not sigma > 0.0:
             raise ValueError(f" {self.__class__.__name__}:"
                              f" The diffusion noise value: {sigma},"
                              f" should be strictly positive.")
@@ -39,7 +39,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         self._sigma = sigma
 
         # Check the drift parameter.
-        if theta <= 0.0:
+        if not theta > 0.0:
             raise ValueError(f" {self.__class__.__name__}:"
                              f" The drift parameter: {theta},"
                              f" should be strictly positive.")
@@ -70,7 +70,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Accept only positive values.
-        if new_value <= 0.0:
+        if not new_value > 0.0:
             # Raise an error with a message.
             raise ValueError(f" {self.__class__.__name__}: The drift value"
                              f" {new_value}, should be strictly positive.")
@@ -98,7 +98,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Accept only positive values.
-        if new_value <= 0.0:
+        if not new_value > 0.0:
             # Raise an error with a message.
             raise ValueError(f"{self.__class__.__name__}: The sigma value "
                              f"{new_value}, should be strictly positive.")
-- 
2.43.0


From 0fcb158cb5ba33b4cbe31372ab3dbeda2d5eab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 14/24] fix: Lorenz models accepted non-symmetric noise
 matrices (inverse of another matrix)

---
 src/dynamics/lorenz_63.py | 6 ++++--
 src/dynamics/lorenz_96.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index a20091a..cd545ec 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -89,7 +89,8 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.any(np.linalg.eigvals(self._sigma) <= 0.0):
+        if not np.allclose(self._sigma, self._sigma.T) or\
+                np.any(np.linalg.eigvals(self._sigma) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {self._sigma} is not positive definite.")
         # _end_if_
@@ -149,7 +150,8 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.any(np.linalg.eigvals(new_value) <= 0.0):
+        if not np.allclose(new_value, new_value.T) or\
+                np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 2632721..8dea282 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -167,7 +167,8 @@ class Lorenz96(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(self._sigma) > 0.0):
+        if np.allclose(self._sigma, self._sigma.T) and\
+                np.all(np.linalg.eigvals(self._sigma) > 0.0):
             # This is a better way to invert Sigma.
             self.sig_inv, _ = chol_inv(self._sigma)
         else:
@@ -226,7 +227,8 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.any(np.linalg.eigvals(new_value) <= 0.0):
+        if not np.allclose(new_value, new_value.T) or\
+                np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Compute the inverse before making any change, so
-- 
2.43.0


From 4617f8c0796c64641196bbf93122f8c3c3a582fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 15/24] fix: Lorenz models shared sigma/theta arrays with the
 caller (changes bypassed validation and the inverse)

---
 src/dynamics/lorenz_63.py | 16 +++++++++++-----
 src/dynamics/lorenz_96.py | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index cd545ec..690b5b6 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -60,9 +60,10 @@ class Lorenz63(StochasticProcess):
         # Display class info.
         print(" Creating Lorenz-63 process.")
 
-        # Make sure the inputs are arrays.
-        sigma = np.asarray(sigma)
-        theta = np.asarray(theta)
+        # Make sure the inputs are arrays. These are copies: if the
+        # caller changes its own arrays later, the model must not.
+        sigma = np.array(sigma, dtype=float)
+        theta = np.array(theta)
 
         # Check the dimensions of the input.
         if sigma.ndim == 0:
@@ -121,7 +122,7 @@ class Lorenz63(StochasticProcess):
 
         :return: None.
         """
-        self._theta = new_value
+        self._theta = np.array(new_value)
     # _end_def_
 
     @property
@@ -131,7 +132,9 @@ class Lorenz63(StochasticProcess):
 
         :return: the system noise parameter.
         """
-        return self._sigma
+        # Return a copy, so that it can only change along with
+        # its inverse.
+        return self._sigma.copy()
     # _end_def_
 
     @sigma.setter
@@ -143,6 +146,9 @@ class Lorenz63(StochasticProcess):
 
         :return: None.
         """
+        # Make a (float) copy of the input.
+        new_value = np.array(new_value, dtype=float)
+
         # Check the dimensionality.
         if new_value.shape != (3, 3):
             raise ValueError(f" {self.__class__.__name__}:"
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 8dea282..a1d0c8c 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -129,9 +129,10 @@ class Lorenz96(StochasticProcess):
         # Display class info.
         print(f" Creating Lorenz-96 (D={dim_d}) process.")
 
-        # Make sure the inputs are arrays.
-        sigma = np.asarray(sigma)
-        theta = np.asarray(theta)
+        # Make sure the inputs are arrays. These are copies: if the
+        # caller changes its own arrays later, the model must not.
+        sigma = np.array(sigma, dtype=float)
+        theta = np.array(theta)
 
         # Check the number of input dimensions.
         if dim_d < 10:
@@ -199,7 +200,7 @@ class Lorenz96(StochasticProcess):
 
         :return: None.
         """
-        self._theta = new_value
+        self._theta = np.array(new_value)
     # _end_def_
 
     @property
@@ -209,7 +210,9 @@ class Lorenz96(StochasticProcess):
 
         :return: the system noise parameter.
         """
-        return self._sigma
+        # Return a copy, so that it can only change along with
+        # its inverse.
+        return self._sigma.copy()
     # _end_def_
 
     @sigma.setter
@@ -221,6 +224,9 @@ class Lorenz96(StochasticProcess):
 
         :return: None.
         """
+        # Make a (float) copy of the input.
+        new_value = np.array(new_value, dtype=float)
+
         # Check the dimensionality.
         if new_value.shape != (self.dim_d, self.dim_d):
             raise ValueError(f" {self.__class__.__name__}:"
-- 
2.43.0


From d2b2001e1ec3efdcd80918e7ab670a15ce6ac21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 16/24] fix: a full disk could crash the process inside HDF5
 during save()

---
 src/var_bayes/simulation.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 3ee8b4c..ee877c1 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -1,6 +1,7 @@
 import h5py
 import time
 import numpy as np
+from io import BytesIO
 from pathlib import Path
 
 from src.var_bayes.fwd_ode import FwdOde
@@ -299,9 +300,13 @@ class Simulation(object):
             # does not destroy the ones that were stored before.
             file_tmp = file_out.with_name(file_out.name + ".tmp")
 
-            # Save the data to an 'HDF5' file format.
+            # Save the data to an 'HDF5' file format. The file is put together
+            # in memory, because HDF5 can lose write errors, or even crash on
+            # them (e.g. when the disk is full).
+            buffer = BytesIO()
+
             # NOTE:  Create file; truncate if exists.
-            with h5py.File(file_tmp, 'w') as out_file:
+            with h5py.File(buffer, 'w') as out_file:
                 # Local reference.
                 data = self.output
 
@@ -314,16 +319,17 @@ class Simulation(object):
                     # _end_if_
 
                     # Default compressions level is '4'.
-                    dset = out_file.create_dataset(key, data=data[key],
-                                                   shape=data[key].shape,
-                                                   compression='gzip')
-
-                    # Force the data to the file while errors can still be
-                    # reported: those met when a dataset closes are lost.
-                    dset.flush()
+                    out_file.create_dataset(key, data=data[key],
+                                            shape=data[key].shape,
+                                            compression='gzip')
                 # _end_for_
             # _end_with_
 
+            # Here all the errors are reported.
+            with open(file_tmp, 'wb') as tmp_file:
+                tmp_file.write(buffer.getbuffer())
+            # _end_with_
+
             # Move the complete file to its final name.
             file_tmp.replace(file_out)
         # _end_if_
-- 
2.43.0


From 53978c6984cf84c9ad56a8d1766b8e00e4f7dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:38 +0000
Subject: [PATCH 17/24] fix: a run that fails in its last evaluation left new
 parameters with old moments

---
 src/var_bayes/simulation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index ee877c1..fe7d244 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -240,6 +240,11 @@ class Simulation(object):
         # Print final duration in seconds.
         print(f" Elapsed time: {(time_tf - time_t0):.2f} seconds.", end='\n')
 
+        # The last point that was evaluated is not always the one that
+        # the optimizer returned, so bring the marginal moments and the
+        # Lagrange multipliers in line with the solution.
+        vgpa.free_energy(x)
+
         # Unpack optimization output data.
         if self.m_data["model"].single_dim:
             # Get the dimensions.
@@ -263,11 +268,6 @@ class Simulation(object):
         # Store the optimization minimum.
         self.output["fx"] = fx
 
-        # The last point that was evaluated is not always the one that
-        # the optimizer returned, so bring the marginal moments and the
-        # Lagrange multipliers in line with the solution.
-        vgpa.free_energy(x)
-
         # Merge the outputs in one dict.
         self.output.update(vgpa.arg_out)
     # _end_def_
-- 
2.43.0


From 2e6c749bce57bc950d18c7d623a3d7ad7124ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:29 +0000
Subject: [PATCH 18/24] fix: one-dimensional runs accepted a non-positive prior
 variance or observation noise

---
 src/var_bayes/gaussian_like.py | 8 ++++++++
 src/var_bayes/prior_kl0.py     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 4ec0384..f6fb2ae 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -27,6 +27,8 @@ class GaussianLikelihood(Likelihood):
         :param operator: observation operator.
 
         :param single_dim: single dimension flag.
+
+        :raises ValueError: if the (scalar) noise variance is not positive.
         """
         # Call the constructor of the parent class.
         super().__init__(values, times, noise, operator)
@@ -34,6 +36,12 @@ class GaussianLikelihood(Likelihood):
         # Marks whether the likelihood corresponds to
         # a single or multiple dimensions observations.
         self.single_dim = single_dim
+
+        # In many dimensions the Cholesky decomposition checks the matrix.
+        if single_dim and not np.all(self.noise > 0.0):
+            raise ValueError(f" {self.__class__.__name__}:"
+                             f" The observation noise {noise} is not positive.")
+        # _end_if_
     # _end_def_
 
     def __call__(self, m: np.ndarray, s: np.ndarray) -> np.ndarray:
diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 525c74c..b06fedd 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -16,6 +16,8 @@ class PriorKL0(object):
         :param mu0: prior moment for the mean (dim_d x 1).
 
         :param tau0: prior moment for the co-variance (dim_d x dim_d).
+
+        :raises ValueError: if the (scalar) prior variance is not positive.
         """
         # Prior mean values (t=0).
         self.mu0 = np.asarray(mu0)
@@ -25,6 +27,12 @@ class PriorKL0(object):
 
         # Single / multiple dimensional.
         self.single_dim = single_dim
+
+        # In many dimensions the Cholesky decomposition checks the matrix.
+        if single_dim and not np.all(self.tau0 > 0.0):
+            raise ValueError(f" {self.__class__.__name__}:"
+                             f" The prior variance {tau0} is not positive.")
+        # _end_if_
     # _end_def_
 
     def __call__(self, m0, s0):
-- 
2.43.0


From f040a343c171e6eb799bcfcfd1b334fca95d7bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 19/24] fix: the noise matrix of the Lorenz models was accepted
 non-symmetric when its entries are small

The symmetry test used an absolute tolerance of 1e-8, so a matrix with
entries of that size was accepted whatever its shape, with an 'inverse'
computed from its lower triangle only. The tolerance now scales with the
matrix.
---
 src/dynamics/lorenz_63.py | 6 ++++--
 src/dynamics/lorenz_96.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 690b5b6..772c93b 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -90,7 +90,8 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if not np.allclose(self._sigma, self._sigma.T) or\
+        if not np.allclose(self._sigma, self._sigma.T,
+                           atol=1.0e-8*np.max(np.abs(self._sigma))) or\
                 np.any(np.linalg.eigvals(self._sigma) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {self._sigma} is not positive definite.")
@@ -156,7 +157,8 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if not np.allclose(new_value, new_value.T) or\
+        if not np.allclose(new_value, new_value.T,
+                           atol=1.0e-8*np.max(np.abs(new_value))) or\
                 np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index a1d0c8c..023faa9 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -168,7 +168,8 @@ class Lorenz96(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.allclose(self._sigma, self._sigma.T) and\
+        if np.allclose(self._sigma, self._sigma.T,
+                       atol=1.0e-8*np.max(np.abs(self._sigma))) and\
                 np.all(np.linalg.eigvals(self._sigma) > 0.0):
             # This is a better way to invert Sigma.
             self.sig_inv, _ = chol_inv(self._sigma)
@@ -233,7 +234,8 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if not np.allclose(new_value, new_value.T) or\
+        if not np.allclose(new_value, new_value.T,
+                           atol=1.0e-8*np.max(np.abs(new_value))) or\
                 np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
-- 
2.43.0


From d101e93f033874216d3d4d515c8058eec0ade17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:44 +0000
Subject: [PATCH 20/24] fix: concurrent saves under one name failed or mixed
 their results

They shared one temporary file.  Its name is unique now, and it is removed
when the save fails.
---
 src/var_bayes/simulation.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index fe7d244..cfc3e71 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -2,7 +2,9 @@ import h5py
 import time
 import numpy as np
 from io import BytesIO
+from uuid import uuid4
 from pathlib import Path
+from contextlib import suppress
 
 from src.var_bayes.fwd_ode import FwdOde
 from src.var_bayes.bwd_ode import BwdOde
@@ -297,8 +299,9 @@ class Simulation(object):
             # The data are written to a temporary file first, which takes
             # the final name only when it is complete.  In this way a save
             # that fails (or is interrupted) leaves no partial results, and
-            # does not destroy the ones that were stored before.
-            file_tmp = file_out.with_name(file_out.name + ".tmp")
+            # does not destroy the ones that were stored before. Its name is
+            # unique, because others may be saving under the same name.
+            file_tmp = file_out.with_name(f"{uuid4().hex}.tmp")
 
             # Save the data to an 'HDF5' file format. The file is put together
             # in memory, because HDF5 can lose write errors, or even crash on
@@ -326,12 +329,21 @@ class Simulation(object):
             # _end_with_
 
             # Here all the errors are reported.
-            with open(file_tmp, 'wb') as tmp_file:
-                tmp_file.write(buffer.getbuffer())
-            # _end_with_
-
-            # Move the complete file to its final name.
-            file_tmp.replace(file_out)
+            try:
+                with open(file_tmp, 'wb') as tmp_file:
+                    tmp_file.write(buffer.getbuffer())
+                # _end_with_
+
+                # Move the complete file to its final name.
+                file_tmp.replace(file_out)
+            except BaseException:
+                # Do not leave a useless file behind.
+                with suppress(OSError):
+                    file_tmp.unlink()
+                # _end_with_
+
+                raise
+            # _end_try_
         # _end_if_
     # _end_def_
 
-- 
2.43.0


From 1877c0ebe7da051efe705e9cc591bd9e3c250ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:57 +0000
Subject: [PATCH 21/24] fix: a simulation with supplied observations had no
 observation noise (or that of an earlier set-up)

---
 src/var_bayes/simulation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index cfc3e71..c7ae1c3 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -149,6 +149,16 @@ class Simulation(object):
         if data is not None:
             self.m_data["obs_t"] = data[0]
             self.m_data["obs_y"] = data[1]
+
+            # Noise variance of these observations.
+            obs_noise = np.asarray(self.m_data["noise"]["obs"])
+
+            if not self.m_data["single_dim"]:
+                # Diagonal matrix (as in collect_obs).
+                obs_noise = obs_noise * np.eye(np.shape(data[1])[-1])
+            # _end_if_
+
+            self.m_data["obs_noise"] = obs_noise
         else:
             # Sample observations from the trajectory.
             obs_t, obs_y, obs_noise = self.m_data["model"].collect_obs(self.m_data["obs_setup"]["density"],
-- 
2.43.0


From b70c570bbe6d65e1dbdc41dd59ddab837409266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:03 +0000
Subject: [PATCH 22/24] fix: the likelihood of Lorenz models took the variances
 of the first time points instead of those at the observation times

---
 src/var_bayes/gaussian_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index f6fb2ae..1bb4019 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -150,7 +150,7 @@ class GaussianLikelihood(Likelihood):
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[n])
+            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
         # _end_for_
 
         # Compute the final including the constants.
-- 
2.43.0


From 5da79ff544593c3b34fe57e1853584cabc35a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:10 +0000
Subject: [PATCH 23/24] fix: a simulation that was set up changed with the
 caller's dictionary and arrays until it was run

---
 src/var_bayes/simulation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index c7ae1c3..406dae3 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -5,6 +5,7 @@ from io import BytesIO
 from uuid import uuid4
 from pathlib import Path
 from contextlib import suppress
+from copy import deepcopy
 
 from src.var_bayes.fwd_ode import FwdOde
 from src.var_bayes.bwd_ode import BwdOde
@@ -106,6 +107,14 @@ class Simulation(object):
 
         :return: None.
         """
+        # Make copies: the simulation will be run later, and the caller may
+        # go on using (and changing) its own dictionary and data until then.
+        params = deepcopy(params)
+
+        if data is not None:
+            data = np.array(data[0]), np.array(data[1])
+        # _end_if_
+
         # Extract drift parameters.
         self.m_data["drift"] = params["Drift"]
 
-- 
2.43.0


From 07f9863de0114226edcb0e17816cc2a146a271aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:51 +0000
Subject: [PATCH 24/24] fix: one-dimensional models shared noise and drift
 arrays with the caller (changes bypassed validation and the inverse)

---
 src/dynamics/double_well.py        | 8 +++++++-
 src/dynamics/ornstein_uhlenbeck.py | 9 +++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 6fa7f68..bc7e6f0 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -36,6 +36,9 @@ class DoubleWell(StochasticProcess):
         # Display class info.
         print(" Creating Double-Well process.")
 
+        # Make sure the inputs are numbers, not arrays of the caller.
+        sigma, theta = float(sigma), float(theta)
+
         # Check value.
         if not sigma > 0.0:
             raise ValueError(f" {self.__class__.__name__}:"
@@ -70,7 +73,7 @@ class DoubleWell(StochasticProcess):
 
         :return: None.
         """
-        self._theta = new_value
+        self._theta = float(new_value)
     # _end_def_
 
     @property
@@ -93,6 +96,9 @@ class DoubleWell(StochasticProcess):
         :return: None.
         """
 
+        # Make sure the input is a number, not an array of the caller.
+        new_value = float(new_value)
+
         # Accept only positive values.
         if not new_value > 0.0:
             # Raise an error with a message.
diff --git a/src/dynamics/ornstein_uhlenbeck.py b/src/dynamics/ornstein_uhlenbeck.py
index baaf494..d6bae70 100644
--- a/src/dynamics/ornstein_uhlenbeck.py
+++ b/src/dynamics/ornstein_uhlenbeck.py
@@ -30,6 +30,9 @@ class OrnsteinUhlenbeck(StochasticProcess):
         # Display class info.
         print(" Creating Ornstein-Uhlenbeck process.")
 
+        # Make sure the inputs are numbers, not arrays of the caller.
+        sigma, theta = float(sigma), float(theta)
+
         # Check noise value.
         if not sigma > 0.0:
             raise ValueError(f" {self.__class__.__name__}:"
@@ -69,6 +72,9 @@ class OrnsteinUhlenbeck(StochasticProcess):
 
         :return: None.
         """
+        # Make sure the input is a number, not an array of the caller.
+        new_value = float(new_value)
+
         # Accept only positive values.
         if not new_value > 0.0:
             # Raise an error with a message.
@@ -97,6 +103,9 @@ class OrnsteinUhlenbeck(StochasticProcess):
 
         :return: None.
         """
+        # Make sure the input is a number, not an array of the caller.
+        new_value = float(new_value)
+
         # Accept only positive values.
         if not new_value > 0.0:
             # Raise an error with a message.
-- 
2.43.0

