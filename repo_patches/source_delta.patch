From e6b0f000755a18a7726b3ac521317ed4a1b12398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 01/26] fix: KalmanFilter.sample uses time-varying covariances
 at every step

The loop rebound transition_covariance/observation_covariance to the slice of
the first step, so every later step was sampled with that slice.
---
 pykalman/standard.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 2f183f0..735d9a5 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1162,8 +1162,7 @@ class KalmanFilter:
             else:
                 transition_matrix = _last_dims(transition_matrices, t - 1)
                 transition_offset = _last_dims(transition_offsets, t - 1, ndims=1)
-                transition_covariance = _last_dims(transition_covariance, t - 1)
-                cov = newbyteorder(transition_covariance, "=")
+                cov = newbyteorder(_last_dims(transition_covariance, t - 1), "=")
                 states[t] = (
                     np.dot(transition_matrix, states[t - 1])
                     + transition_offset
@@ -1172,13 +1171,11 @@ class KalmanFilter:
 
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
-            observation_covariance = _last_dims(observation_covariance, t)
+            cov = newbyteorder(_last_dims(observation_covariance, t), "=")
             observations[t] = (
                 np.dot(observation_matrix, states[t])
                 + observation_offset
-                + rng.multivariate_normal(
-                    np.zeros(n_dim_obs), newbyteorder(observation_covariance, "=")
-                )
+                + rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             )
 
         return (states, np.ma.array(observations))
-- 
2.43.0


From 8d0a71f2cbc59c541c95223dca14739d45395c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 02/26] fix: loglikelihood accepts a time-varying observation
 covariance

_loglikelihoods added the whole [n_timesteps, n_dim_obs, n_dim_obs] array to
each step instead of the slice of that step, and raised ValueError.
---
 pykalman/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 735d9a5..4083b90 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -173,7 +173,7 @@ def _loglikelihoods(
                     observation_matrix,
                     np.dot(predicted_state_covariance, observation_matrix.T),
                 )
-                + observation_covariance
+                + _last_dims(observation_covariance, t)
             )
             lmnd_arr = log_multivariate_normal_density(
                 observation[np.newaxis, :],
-- 
2.43.0


From 3429786b2a36ed433a20d6bd1d548b84f4fb5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 03/26] fix: em() honours em_vars and its default in all linear
 filters

CholeskyKalmanFilter.em and BiermanKalmanFilter.em raised TypeError for the
default em_vars=None; KalmanFilter.em ignored an em_vars attribute assigned
after construction.
---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 pykalman/standard.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efc77ad..f6deead 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -813,7 +813,7 @@ class BiermanKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self.em_vars if self.em_vars is not None else self._em_vars
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 71f8cc1..c9c55eb 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -644,7 +644,7 @@ class CholeskyKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self.em_vars if self.em_vars is not None else self._em_vars
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/standard.py b/pykalman/standard.py
index 4083b90..21dd014 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1447,7 +1447,7 @@ class KalmanFilter:
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self._em_vars
+            em_vars = self.em_vars if self.em_vars is not None else self._em_vars
 
         if em_vars == "all":
             given = {}
-- 
2.43.0


From fb15df889a5535287602fe98855ca0685e4ed145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 04/26] fix: square root filter_update returns a 2D covariance

The covariance came back as [1, n_dim_state, n_dim_state] instead of the
documented [n_dim_state, n_dim_state] and could not be passed to the next
filter_update call.
---
 pykalman/sqrt/bierman.py   | 2 +-
 pykalman/sqrt/cholesky.py  | 2 +-
 pykalman/sqrt/unscented.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index f6deead..4e1ad63 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -703,7 +703,7 @@ class BiermanKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index c9c55eb..94c4db5 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -534,7 +534,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 320634b..99f4508 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -764,7 +764,7 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
-- 
2.43.0


From 00ee24cfde5a49e07e80c302c0fef8faf9fc745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 05/26] fix: accept a single time step of a multi-dimensional
 observation

A [1, n_dim_obs] observation array was transposed to [n_dim_obs, 1] and then
rejected.
---
 pykalman/standard.py  | 2 +-
 pykalman/unscented.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 21dd014..43a9673 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1640,6 +1640,6 @@ class KalmanFilter:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = np.ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] > 1 and obs.shape[1] != self.n_dim_obs:
             obs = obs.T
         return obs
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index e4027a4..97e9069 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -733,7 +733,7 @@ class UnscentedMixin:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] > 1 and obs.shape[1] != self.n_dim_obs:
             obs = obs.T
         return obs
 
-- 
2.43.0


From d85819563ecf0656f27aa8c846d0a26f351cbec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 06/26] fix: unscented filters use
 transition_functions[t]/observation_functions[t]

With a [n_timesteps] array of functions, the first function was used at every
time step.
---
 pykalman/sqrt/unscented.py | 10 +++++-----
 pykalman/unscented.py      | 31 +++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 99f4508..2c009be 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -22,9 +22,9 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from ..standard import _arg_or_default, _last_dims
+from ..standard import _arg_or_default
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
-from ..unscented import Moments, SigmaPoints
+from ..unscented import Moments, SigmaPoints, _function_at
 from ..utils import array2d
 
 
@@ -457,14 +457,14 @@ def _additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma2_transition=Q2
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma2_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma2_observation=R2
         )
@@ -516,7 +516,7 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        transition_function = _last_dims(f, t, ndims=1)[0]
+        transition_function = _function_at(f, t)
         (points_pred, moments_pred) = _unscented_transform(
             points_state, transition_function, sigma2_noise=Q2
         )
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 97e9069..d7145a1 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -31,6 +31,17 @@ SigmaPoints = namedtuple(
 )
 
 
+
+def _function_at(functions, t):
+    """Select the function for index `t` from an array of functions.
+
+    A single function is used for every `t`.
+    """
+    if len(functions.shape) == 1 and len(functions) > 1:
+        return functions[t]
+    return _last_dims(functions, t, ndims=1)[0]
+
+
 # represents mean and covariance of a multivariate normal distribution
 Moments = namedtuple("Moments", ["mean", "covariance"])
 
@@ -452,13 +463,13 @@ def augmented_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (points_pred, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, points_transition=points_transition
             )
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function,
             moments_pred,
@@ -516,7 +527,7 @@ def augmented_unscented_smoother(mu_filt, sigma_filt, f, Q):
         )
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, points_noise=points_transition
         )
@@ -592,14 +603,14 @@ def additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma_transition=Q
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[x_t | z_{0:t}], Var(x_t | z_{0:t})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma_observation=R
         )
@@ -650,7 +661,7 @@ def additive_unscented_smoother(mu_filt, sigma_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, sigma_noise=Q
         )
@@ -847,12 +858,12 @@ class UnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1], transition_noise)
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t], observation_noise)
@@ -1163,12 +1174,12 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1]) + transition_noise
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t]) + observation_noise
-- 
2.43.0


From 84d8e1e2aebdf233b5e1c508f30a70551d83c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 07/26] fix: square root UKF gain for correlated
 multi-dimensional observations

obs_sigma2_pred is the upper factor S with S'S the covariance, but the gain was
computed with (S S')^-1 and the covariance downdated with K S instead of K S'.
Both are wrong once n_dim_obs > 1 and the predicted observation is correlated.
---
 pykalman/sqrt/unscented.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 2c009be..d608a0a 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -287,13 +287,13 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
 
         # equivalent to this MATLAB code
         # K = (cross_sigma / obs_sigma2_pred.T) / obs_sigma2_pred
-        K = linalg.lstsq(obs_sigma2_pred, cross_sigma.T)[0]
-        K = linalg.lstsq(obs_sigma2_pred.T, K)[0]
+        K = linalg.lstsq(obs_sigma2_pred.T, cross_sigma.T)[0]
+        K = linalg.lstsq(obs_sigma2_pred, K)[0]
         K = K.T
 
         # correct mu, sigma
         mu_filt = mu_pred + K.dot(z - obs_mu_pred)
-        U = K.dot(obs_sigma2_pred)
+        U = K.dot(obs_sigma2_pred.T)
         sigma2_filt = cholupdate(sigma2_pred, U.T, -1.0)
     else:
         # no corrections to be made
-- 
2.43.0


From cf981c32b2f6e3a95415a193ca5e1ba70680798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 08/26] fix: square root UKF smoother when the future carries
 no information

The smoother factorised P_pred - P_smooth, which is singular whenever the later
observations leave some direction unchanged (e.g. a missing last observation),
and returned NaN. Add the smoothed covariance first, then remove the predicted.
---
 pykalman/sqrt/unscented.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index d608a0a..55b6f26 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -545,8 +545,12 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         mu_smooth[t] = mu_filt[t] + smoother_gain.dot(
             mu_smooth[t + 1] - moments_pred.mean
         )
-        U = cholupdate(moments_pred.covariance, sigma2_smooth[t + 1], -1.0)
-        sigma2_smooth[t] = cholupdate(sigma2_filt[t], smoother_gain.dot(U.T).T, -1.0)
+        U = cholupdate(
+            sigma2_filt[t], smoother_gain.dot(sigma2_smooth[t + 1].T).T, 1.0
+        )
+        sigma2_smooth[t] = cholupdate(
+            U, smoother_gain.dot(moments_pred.covariance.T).T, -1.0
+        )
 
     return (mu_smooth, sigma2_smooth)
 
-- 
2.43.0


From 11cbb60fcdd5f65cfe5dbaa215300331c9d2986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 09/26] fix: square root UKF honours negative sigma point
 weights

For n_dim_state > 3 the central weight is negative; sign(w) * sqrt(|w|) inside
the QR factorization squares the sign away and added the point's contribution
instead of subtracting it.
---
 pykalman/sqrt/unscented.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 55b6f26..cb7020d 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -134,15 +134,17 @@ def points2moments(points, sigma2_noise=None):
     mu = points.T.dot(weights_mu)
 
     # make points to perform QR factorization on. each column is one data point
+    points_diff = points.T - mu[:, np.newaxis]
+    positive = weights_sigma >= 0
     qr_points = [
-        np.sign(weights_sigma)[np.newaxis, :]
-        * np.sqrt(np.abs(weights_sigma))[np.newaxis, :]
-        * (points.T - mu[:, np.newaxis])
+        np.sqrt(weights_sigma[positive])[np.newaxis, :] * points_diff[:, positive]
     ]
     if sigma2_noise is not None:
         qr_points.append(sigma2_noise)
     sigma2 = qr(np.hstack(qr_points).T)
-    # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
+    # points with negative weight are subtracted from the factorization
+    for i in np.flatnonzero(~positive):
+        sigma2 = cholupdate(sigma2, points_diff[:, i], weights_sigma[i])
     return Moments(mu.ravel(), sigma2)
 
 
-- 
2.43.0


From dc7097c0b56e66c4296922720453899de51d9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 10/26] fix: newbyteorder converts values instead of
 reinterpreting bytes

A parameter array in non-native byte order was viewed as native, so sample()
drew from a garbage covariance.
---
 pykalman/utils/_numpy.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pykalman/utils/_numpy.py b/pykalman/utils/_numpy.py
index c6521e4..3d97b74 100644
--- a/pykalman/utils/_numpy.py
+++ b/pykalman/utils/_numpy.py
@@ -1,9 +1,5 @@
 """Utility functions to handle numpy 2."""
 
-from skbase.utils.dependencies import _check_soft_dependencies
-
-numpy2 = _check_soft_dependencies("numpy>=2", severity="none")
-
 
 def newbyteorder(arr, new_order):
     """Change the byte order of an array.
@@ -20,7 +16,4 @@ def newbyteorder(arr, new_order):
     arr : ndarray
         Array with new byte order.
     """
-    if numpy2:
-        return arr.view(arr.dtype.newbyteorder(new_order))
-    else:
-        return arr.newbyteorder(new_order)
+    return arr.astype(arr.dtype.newbyteorder(new_order))
-- 
2.43.0


From d6a1c3bdb4b46bbba538ecc1a53430651469d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 11/26] fix: check_random_state raises the documented
 ValueError

.format was called on the exception, so an invalid seed raised AttributeError.
---
 pykalman/utils/_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 1569372..3f86ddb 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -83,8 +83,8 @@ def check_random_state(seed):
     if isinstance(seed, np.random.RandomState):
         return seed
     raise ValueError(
-        "{0} cannot be used to seed a numpy.random.RandomState" + " instance"
-    ).format(seed)
+        f"{seed} cannot be used to seed a numpy.random.RandomState instance"
+    )
 
 
 class Bunch(dict):
-- 
2.43.0


From 94112fcc82da3ad643d274dfbcd3b78b25d958d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 12/26] fix: square root UKF adds correlated noise covariances
 correctly

sigma2_noise is the upper factor S with S'S the noise covariance, but its columns
rather than its rows were stacked, which adds S S' to the covariance.
---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index cb7020d..ab3d3b9 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -140,7 +140,7 @@ def points2moments(points, sigma2_noise=None):
         np.sqrt(weights_sigma[positive])[np.newaxis, :] * points_diff[:, positive]
     ]
     if sigma2_noise is not None:
-        qr_points.append(sigma2_noise)
+        qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
     # points with negative weight are subtracted from the factorization
     for i in np.flatnonzero(~positive):
-- 
2.43.0


From fa964868dd89b7ce98e53a9e20c3c437a63cd0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 13/26] fix: parameters given in non-native byte order

scipy.linalg misreads arrays in foreign byte order, so filters built from e.g.
big-endian files returned wrong estimates. Convert parameters on entry.
---
 pykalman/utils/_sklearn.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 3f86ddb..3e42145 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -36,15 +36,22 @@ import inspect
 import numpy as np
 from scipy import linalg
 
+from pykalman.utils._numpy import newbyteorder
+
+
+def _native(arr):
+    """Convert an array in foreign byte order, which LAPACK would misread."""
+    return arr if arr.dtype.isnative else newbyteorder(arr, "=")
+
 
 def array1d(X, dtype=None, order=None):
     """Return at least 1-d array with data from X."""
-    return np.asarray(np.atleast_1d(X), dtype=dtype, order=order)
+    return _native(np.asarray(np.atleast_1d(X), dtype=dtype, order=order))
 
 
 def array2d(X, dtype=None, order=None):
     """Return at least 2-d array with data from X."""
-    return np.asarray(np.atleast_2d(X), dtype=dtype, order=order)
+    return _native(np.asarray(np.atleast_2d(X), dtype=dtype, order=order))
 
 
 def log_multivariate_normal_density(X, means, covars, min_covar=1.0e-7):
-- 
2.43.0


From f7caef81990196cfe472715071ebeaa2cc6231bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 14/26] fix: em_vars may be any iterable of strings, including
 an array

---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 pykalman/standard.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 4e1ad63..022c42c 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -815,7 +815,7 @@ class BiermanKalmanFilter(KalmanFilter):
         if em_vars is None:
             em_vars = self.em_vars if self.em_vars is not None else self._em_vars
 
-        if em_vars == "all":
+        if isinstance(em_vars, str) and em_vars == "all":
             given = {}
         else:
             given = {
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 94c4db5..6ce9001 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -646,7 +646,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         if em_vars is None:
             em_vars = self.em_vars if self.em_vars is not None else self._em_vars
 
-        if em_vars == "all":
+        if isinstance(em_vars, str) and em_vars == "all":
             given = {}
         else:
             given = {
diff --git a/pykalman/standard.py b/pykalman/standard.py
index 43a9673..f18de2c 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1449,7 +1449,7 @@ class KalmanFilter:
         if em_vars is None:
             em_vars = self.em_vars if self.em_vars is not None else self._em_vars
 
-        if em_vars == "all":
+        if isinstance(em_vars, str) and em_vars == "all":
             given = {}
         else:
             given = {
-- 
2.43.0


From 840e00434f9d9b34819ecca60def281a54589099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 15/26] fix: udu() of an integer matrix truncated the
 factorization

---
 pykalman/sqrt/bierman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 022c42c..cb66a22 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -71,7 +71,7 @@ def udu(M):
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-    M = np.triu(M)
+    M = np.triu(np.asarray(M, dtype=float))
     U = np.eye(n)
     d = np.zeros(n)
     for j in reversed(range(2, n + 1)):
-- 
2.43.0


From 23ca4c6f271eab40ad6c7145090774745e97db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 16/26] fix: decorrelate_observations truncated time-varying
 integer observation matrices

---
 pykalman/sqrt/bierman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index cb66a22..3fce2bb 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -134,7 +134,7 @@ def decorrelate_observations(
     observation_covariance_inv = linalg.pinv(observation_covariance2)
 
     # decorrelate observation_matrices
-    observation_matrices2 = np.copy(observation_matrices)
+    observation_matrices2 = np.array(observation_matrices, dtype=float)
     if len(observation_matrices.shape) == DIM["observation_matrices"] + 1:
         n_timesteps = observation_matrices.shape[0]
         for t in range(n_timesteps):
-- 
2.43.0


From 744c700607aef36dfc0a708365c699e85614a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 17/26] fix: filter_update accepts array-likes and non-native
 byte order like the constructor

---
 pykalman/sqrt/bierman.py   | 5 ++++-
 pykalman/sqrt/cholesky.py  | 5 ++++-
 pykalman/sqrt/unscented.py | 5 ++++-
 pykalman/standard.py       | 5 ++++-
 pykalman/unscented.py      | 6 ++++++
 5 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 3fce2bb..22602a1 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -24,7 +24,7 @@ from ..standard import (
     _smooth,
     _smooth_pair,
 )
-from ..utils import get_params
+from ..utils import array1d, array2d, get_params
 
 
 def _reconstruct_covariances(covariances):
@@ -660,6 +660,9 @@ class BiermanKalmanFilter(KalmanFilter):
             observation_covariance, observation_cov, 2, "observation_covariance"
         )
 
+        filtered_state_mean = array1d(filtered_state_mean)
+        filtered_state_covariance = array2d(filtered_state_covariance)
+
         # Make a masked observation if necessary
         if observation is None:
             n_dim_obs = observation_covariance.shape[0]
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 6ce9001..fee6054 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -23,7 +23,7 @@ from ..standard import (
     _smooth,
     _smooth_pair,
 )
-from ..utils import get_params
+from ..utils import array1d, array2d, get_params
 
 
 def _reconstruct_covariances(covariance2s):
@@ -497,6 +497,9 @@ class CholeskyKalmanFilter(KalmanFilter):
             observation_covariance, observation_cov, 2, "observation_covariance"
         )
 
+        filtered_state_mean = array1d(filtered_state_mean)
+        filtered_state_covariance = array2d(filtered_state_covariance)
+
         # Make a masked observation if necessary
         if observation is None:
             n_dim_obs = observation_covariance.shape[0]
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index ab3d3b9..0832af6 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -25,7 +25,7 @@ from scipy import linalg
 from ..standard import _arg_or_default
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
 from ..unscented import Moments, SigmaPoints, _function_at
-from ..utils import array2d
+from ..utils import array1d, array2d
 
 
 def _reconstruct_covariances(covariance2s):
@@ -733,6 +733,9 @@ class AdditiveUnscentedKalmanFilter(AUKF):
             observation_covariance, observation_cov, 2, "observation_covariance"
         )
 
+        filtered_state_mean = array1d(filtered_state_mean)
+        filtered_state_covariance = array2d(filtered_state_covariance)
+
         # Make a masked observation if necessary
         if observation is None:
             n_dim_obs = observation_covariance.shape[0]
diff --git a/pykalman/standard.py b/pykalman/standard.py
index f18de2c..c8f9bda 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -40,7 +40,7 @@ def _arg_or_default(arg, default, dim, name):
     if arg is None:
         result = np.asarray(default)
     else:
-        result = arg
+        result = array1d(arg) if dim == 1 else array2d(arg)
     if len(result.shape) > dim:
         raise ValueError(
             ("%s is not constant for all time." + "  You must specify it manually.")
@@ -1324,6 +1324,9 @@ class KalmanFilter:
             observation_covariance, observation_cov, 2, "observation_covariance"
         )
 
+        filtered_state_mean = array1d(filtered_state_mean)
+        filtered_state_covariance = array2d(filtered_state_covariance)
+
         # Make a masked observation if necessary
         if observation is None:
             n_dim_obs = observation_covariance.shape[0]
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index d7145a1..dab610d 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -993,6 +993,9 @@ class UnscentedKalmanFilter(UnscentedMixin):
             observation_covariance, observation_cov, 2, "observation_covariance"
         )
 
+        filtered_state_mean = array1d(filtered_state_mean)
+        filtered_state_covariance = array2d(filtered_state_covariance)
+
         # Make a masked observation if necessary
         if observation is None:
             n_dim_obs = observation_covariance.shape[0]
@@ -1309,6 +1312,9 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             observation_covariance, observation_cov, 2, "observation_covariance"
         )
 
+        filtered_state_mean = array1d(filtered_state_mean)
+        filtered_state_covariance = array2d(filtered_state_covariance)
+
         # Make a masked observation if necessary
         if observation is None:
             n_dim_obs = observation_covariance.shape[0]
-- 
2.43.0


From 737f0d821086a9d4fd52a5eb8a4dae571443189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 18/26] fix: keep the EM estimate of the transition covariance
 symmetric

Rounding made the estimate slightly asymmetric; each EM iteration amplified the
asymmetry (by about 4x on the bundled robot data), so that after some twenty
iterations the estimate became indefinite and the likelihood fell.
---
 pykalman/standard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index c8f9bda..f5c5a7a 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -870,6 +870,9 @@ def _em_transition_covariance(
             - Vt1t_A.T
         )
 
+    # remove the asymmetry due to rounding: EM iterations would amplify it
+    res = 0.5 * (res + res.T)
+
     if n_timesteps > 1:
         return (1.0 / (n_timesteps - 1)) * res
     else:
-- 
2.43.0


From 4d2911b461a57a1832f89d027c0c2e7af365adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 19/26] fix: compute with integer parameters in double
 precision

Small integers (the bundled data has uint8 ones) wrapped around in filter_update
and were factored in single precision by the Cholesky based filters.
---
 pykalman/utils/_sklearn.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 3e42145..d86ae67 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -40,7 +40,13 @@ from pykalman.utils._numpy import newbyteorder
 
 
 def _native(arr):
-    """Convert an array in foreign byte order, which LAPACK would misread."""
+    """Convert an array in a type that would be misread or computed in imprecisely.
+
+    LAPACK misreads foreign byte orders, and small integers wrap around or are
+    factored in single precision.
+    """
+    if arr.dtype.kind in "biu":
+        return arr.astype(float)
     return arr if arr.dtype.isnative else newbyteorder(arr, "=")
 
 
-- 
2.43.0


From 2d578594e340db9cacea833f30f810dd06ccdafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 20/26] fix: predict in factored form in the Bierman filter

---
 pykalman/sqrt/bierman.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 22602a1..0cf6b3c 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -203,14 +203,21 @@ def _filter_predict(
         np.dot(transition_matrix, current_state_mean) + transition_offset
     )
 
-    # predict new covariance
-    predicted_state_covariance = udu(
-        transition_matrix.dot(current_state_covariance.reconstruct()).dot(
-            transition_matrix.T
-        )
-        + transition_covariance
-    )
-    return (predicted_state_mean, predicted_state_covariance)
+    # predict new covariance without forming it: the rows of W, weighted by D,
+    # are made orthogonal (modified weighted Gram-Schmidt)
+    noise = udu(transition_covariance)
+    W = np.hstack([transition_matrix.dot(current_state_covariance.U), noise.U])
+    D = np.concatenate([current_state_covariance.D, noise.D])
+    n = len(W)
+    U_bar = np.eye(n)
+    D_bar = np.zeros(n)
+    for j in reversed(range(n)):
+        weighted = D * W[j]
+        D_bar[j] = weighted.dot(W[j])
+        if D_bar[j] > 0:
+            U_bar[:j, j] = W[:j].dot(weighted) / D_bar[j]
+            W[:j] = W[:j] - np.outer(U_bar[:j, j], W[j])
+    return (predicted_state_mean, UDU_decomposition(U_bar, D_bar))
 
 
 def _filter_correct_single(UDU, h, R):
-- 
2.43.0


From 80a2a9b006eada988feb006b383a814e19cab8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 21/26] fix: the symmetry check of udu() does not depend on the
 units

---
 pykalman/sqrt/bierman.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 0cf6b3c..3902e6a 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -67,11 +67,15 @@ def udu(M):
     UDU : UDU_decomposition of size n
         UDU' representation of M
     """
-    assert np.allclose(M, M.T), "M must be symmetric, positive semidefinite"
+    M = np.asarray(M, dtype=float)
+    # rounding leaves an asymmetry in proportion to the largest entry
+    assert np.allclose(
+        M, M.T, atol=1e-8 * max(1.0, np.abs(M).max())
+    ), "M must be symmetric, positive semidefinite"
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-    M = np.triu(np.asarray(M, dtype=float))
+    M = np.triu(M)
     U = np.eye(n)
     d = np.zeros(n)
     for j in reversed(range(2, n + 1)):
-- 
2.43.0


From 46f168ada5c613d687e05440512f9d860affea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 22/26] fix: filter_update of the square root filters accepts a
 scalar observation

---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 3902e6a..7840101 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -680,7 +680,7 @@ class BiermanKalmanFilter(KalmanFilter):
             observation = np.ma.array(np.zeros(n_dim_obs))
             observation.mask = True
         else:
-            observation = np.ma.asarray(observation)
+            observation = np.ma.atleast_1d(observation)
 
         # transform filtered_state_covariance into its UDU decomposition
         filtered_state_covariance = udu(filtered_state_covariance)
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index fee6054..229db7c 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -506,7 +506,7 @@ class CholeskyKalmanFilter(KalmanFilter):
             observation = np.ma.array(np.zeros(n_dim_obs))
             observation.mask = True
         else:
-            observation = np.ma.asarray(observation)
+            observation = np.ma.atleast_1d(observation)
 
         # turn covariance into cholesky factorizations
         transition_covariance2 = linalg.cholesky(transition_covariance, lower=True)
-- 
2.43.0


From 325b07b20c72a2fed58bbbac0a13903ffbc1c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 23/26] fix: em_vars assigned None means the documented default

---
 pykalman/standard.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index f5c5a7a..ef3b5d2 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1105,15 +1105,13 @@ class KalmanFilter:
         self.n_dim_state = n_dim_state
         self.n_dim_obs = n_dim_obs
 
-        if em_vars is None:
-            self._em_vars = [
-                "transition_covariance",
-                "observation_covariance",
-                "initial_state_mean",
-                "initial_state_covariance",
-            ]
-        else:
-            self._em_vars = em_vars
+        # what em() estimates while `em_vars` is None
+        self._em_vars = [
+            "transition_covariance",
+            "observation_covariance",
+            "initial_state_mean",
+            "initial_state_covariance",
+        ]
 
     def sample(self, n_timesteps, initial_state=None, random_state=None):
         r"""Sample a state sequence :math:`n_{\\text{timesteps}}` timesteps in length.
-- 
2.43.0


From 4a9e8bfe9516ed6035dd9ffe42abc1bd3868c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 24/26] fix: load_robot closes the description it reads

---
 pykalman/datasets/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykalman/datasets/base.py b/pykalman/datasets/base.py
index 4db0b93..4e65a15 100644
--- a/pykalman/datasets/base.py
+++ b/pykalman/datasets/base.py
@@ -42,7 +42,8 @@ def load_robot():
 
     module_path = dirname(__file__)
     data = io.loadmat(join(module_path, "data", "robot.mat"))
-    descr = open(join(module_path, "descr", "robot.rst")).read()
+    with open(join(module_path, "descr", "robot.rst")) as f:
+        descr = f.read()
     Z = pad_and_mask(data["y"].T)
     X = data["x"].T
     A = data["A"]
-- 
2.43.0


From 7e3b40ad61870efb6ceda488e7fa534da89d63d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 25/26] fix: filter_update refuses to guess among several
 functions also under python -O

---
 pykalman/sqrt/unscented.py |  5 ++++-
 pykalman/unscented.py      | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 0832af6..a888359 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -716,7 +716,10 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         def default_function(f, arr):
             if f is None:
-                assert len(arr) == 1
+                if len(arr) != 1:
+                    raise ValueError(
+                        "functions that vary over time have to be given for this step"
+                    )
                 f = arr[0]
             return f
 
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index dab610d..84caac5 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -976,7 +976,10 @@ class UnscentedKalmanFilter(UnscentedMixin):
 
         def default_function(f, arr):
             if f is None:
-                assert len(arr) == 1
+                if len(arr) != 1:
+                    raise ValueError(
+                        "functions that vary over time have to be given for this step"
+                    )
                 f = arr[0]
             return f
 
@@ -1295,7 +1298,10 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
 
         def default_function(f, arr):
             if f is None:
-                assert len(arr) == 1
+                if len(arr) != 1:
+                    raise ValueError(
+                        "functions that vary over time have to be given for this step"
+                    )
                 f = arr[0]
             return f
 
-- 
2.43.0


From e725ab103775c587395f382de93e86a7ce23b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 26/26] fix: udu() refuses asymmetric matrices also under
 python -O

---
 pykalman/sqrt/bierman.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 7840101..81f8a7b 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -69,9 +69,8 @@ def udu(M):
     """
     M = np.asarray(M, dtype=float)
     # rounding leaves an asymmetry in proportion to the largest entry
-    assert np.allclose(
-        M, M.T, atol=1e-8 * max(1.0, np.abs(M).max())
-    ), "M must be symmetric, positive semidefinite"
+    if not np.allclose(M, M.T, atol=1e-8 * max(1.0, np.abs(M).max())):
+        raise ValueError("M must be symmetric, positive semidefinite")
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-- 
2.43.0

