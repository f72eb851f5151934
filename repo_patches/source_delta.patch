From d911ebbdc9b7a74743c8e952991d3f1a3dccb665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 01/23] fix: quadrature of the LTI transition used
 jnp.trapezoid, missing from the supported jax

jnp.trapezoid does not exist in jax 0.4.23 (the rest of the package uses
jnp.trapz), so every prior built by numerical integration raised AttributeError.
---
 .../ode_solvers/probnum/transition_function.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
index 60b0c10..ea1366b 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import jax
 import jax.numpy as jnp
 import jax.scipy.linalg as linalg
+from jax.scipy.integrate import trapezoid
 from numpy.typing import ArrayLike
 
 
@@ -27,7 +28,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return linalg.expm(F * s) @ u
 
     integrand_xi_values = integrand_xi(linspace)
-    xi = jnp.trapezoid(integrand_xi_values, linspace, axis=0)
+    xi = trapezoid(integrand_xi_values, linspace, axis=0)
 
     @jax.vmap
     def integrand_Q(s):
@@ -35,7 +36,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return B @ B.T
 
     integrand_Q_values = integrand_Q(linspace)
-    Q = jnp.trapezoid(integrand_Q_values, linspace, axis=0)
+    Q = trapezoid(integrand_Q_values, linspace, axis=0)
 
     return xi, Q, A
 
-- 
2.43.0


From 8e8f6a63328fc7191901a350193106725afcb702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 02/23] fix: Matern companion matrix has coefficients -C(k+1,
 i) lambda^(k+1-i)

The exponent had the wrong sign, so the general branch disagreed with the
closed form documented for nu = 3/2 (and with the Matern SDE) unless lambda = 1.
---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index e2675e4..909c5b2 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -62,7 +62,7 @@ ArrayLike]:
     else:
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (i - (k + 1)) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * lambda_param ** ((k + 1) - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
         m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
-- 
2.43.0


From 5cf7e7f79bf93704d955998dbaff36a26c917295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 03/23] fix: ekf0/ekf1 crashed with the default prior

prior=None is the documented default (IBM prior, q = 1) but the wrappers read
its shape unconditionally.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 7 +++++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 17b3f43..3b1eee4 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -11,8 +11,11 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     Wrapper for EKF0 with new prior at each step.
     Algorithm 2.
     """
-    n_states = int(prior[2].shape[0] / init.shape[
-        0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
+    # IBM prior with q = 1 by default (see _solver).
+    if prior is None:
+        n_states = 2
+    else:
+        n_states = int(prior[2].shape[0] / init.shape[0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
     # the first two cases are exact initialization
     if n_states == 2:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 20a4f5a..133ce62 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -10,7 +10,11 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
     """
-    n_states = int(prior[2].shape[0] / init.shape[0])
+    # IBM prior with q = 1 by default (see _solver).
+    if prior is None:
+        n_states = 2
+    else:
+        n_states = int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     if n_states == 2:
         # Zero initial variance
-- 
2.43.0


From 9acf2cdca09391ead13b66939cea3c5285ee864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 04/23] fix: initial covariance of ekf0/ekf1 with more than
 three states

ekf0 raised TypeError (misplaced parenthesis, tuple argnums); ekf1 zeroed the
leading 3*dim block although the state is interlaced, so for dim > 1 the exactly
initialised states had unit variance and unknown ones had none.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 3b1eee4..aa604b3 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -34,9 +34,9 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field, argnums=(0,))(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 133ce62..f90dd61 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -33,7 +33,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
         init = (
             interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From ef90539e2576b28a5640df621e07ebab6899cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 05/23] fix: exact initialisation of the second derivative for
 time-dependent fields

For x' = f(x, t) the second derivative is (Jf) f + df/dt; the time derivative was
dropped, although the vector fields of the SDE solver always depend on time.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 11 +++++++++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index aa604b3..99780ee 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -6,6 +6,13 @@ from bayesian_sde_solver.ode_solvers.ekf1 import _solver
 from bayesian_sde_solver.ode_solvers.probnum import interlace
 
 
+def _second_derivative(vector_field, x, t):
+    """
+    Second derivative of the solution of x' = f(x, t), i.e., (Jf) f + df/dt.
+    """
+    return jax.jvp(vector_field, (x, t), (vector_field(x, t), 1.0))[1]
+
+
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     """
     Wrapper for EKF0 with new prior at each step.
@@ -27,14 +34,14 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), _second_derivative(vector_field, init, 0.0))),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+                       _second_derivative(vector_field, init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index f90dd61..a9839e2 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -6,6 +6,13 @@ from bayesian_sde_solver.ode_solvers.ekf import _solver
 from bayesian_sde_solver.ode_solvers.probnum import interlace
 
 
+def _second_derivative(vector_field, x, t):
+    """
+    Second derivative of the solution of x' = f(x, t), i.e., (Jf) f + df/dt.
+    """
+    return jax.jvp(vector_field, (x, t), (vector_field(x, t), 1.0))[1]
+
+
 def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
@@ -25,13 +32,13 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), _second_derivative(vector_field, init, 0.0))),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0), _second_derivative(vector_field, init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
-- 
2.43.0


From c78c291025c29bbb72b9539aae3f496b6a1cb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 06/23] fix: square roots of singular covariance matrices

linalg.sqrtm (complex Schur method) returns NaN, or a matrix that is off by O(1),
on many singular covariances, e.g. those ekf1_2(sqrt=True) builds from P_00 and H
P_00 H^T. Use the spectral square root, which is defined for every covariance.
---
 bayesian_sde_solver/ode_solvers/ekf0.py             | 5 ++---
 bayesian_sde_solver/ode_solvers/ekf0_2.py           | 7 +++----
 bayesian_sde_solver/ode_solvers/ekf1.py             | 5 ++---
 bayesian_sde_solver/ode_solvers/ekf1_2.py           | 7 +++----
 bayesian_sde_solver/ode_solvers/probnum/__init__.py | 2 +-
 bayesian_sde_solver/ode_solvers/probnum/_utils.py   | 8 ++++++++
 bayesian_sde_solver/ssm_parabola/ekf.py             | 5 ++---
 bayesian_sde_solver/ssm_parabola/ekf0.py            | 4 ++--
 bayesian_sde_solver/ssm_parabola/ekf1.py            | 4 ++--
 9 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 99780ee..0872bcd 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf1 import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm
 
 
 def _second_derivative(vector_field, x, t):
@@ -48,7 +47,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrtm(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),
                                                                  jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf0_2.py b/bayesian_sde_solver/ode_solvers/ekf0_2.py
index 6485a59..92ab91d 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrtm
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -21,7 +20,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_10 = H @ P_00
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        var = psd_sqrtm(var)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -36,7 +35,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = psd_sqrtm(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index a9839e2..ae43c06 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm
 
 
 def _second_derivative(vector_field, x, t):
@@ -45,7 +44,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrtm(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)), jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
     last_value = jnp.vstack(m[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf1_2.py b/bayesian_sde_solver/ode_solvers/ekf1_2.py
index f366836..9ad79b4 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrtm
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -26,7 +25,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_01 = P_00 @ H.T
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        var = psd_sqrtm(var)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -41,7 +40,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = psd_sqrtm(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/probnum/__init__.py b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
index 49556ad..c28519a 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/__init__.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
@@ -1,5 +1,5 @@
 from .IOUP import transition_function as IOUP_transition_function
 from .matern import transition_function as matern_transition_function
-from ._utils import interlace, interlace_matrix
+from ._utils import interlace, interlace_matrix, psd_sqrtm
 from .ekf import ekf
 from .transition_function import transition_function as transition_function, get_independently_factorized_prior, pad_prior
diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 43cd8f6..a22b25d 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -27,3 +27,11 @@ def interlace_matrix(v: ArrayLike, w: ArrayLike, x: ArrayLike, y: ArrayLike) ->
     _var = _var.at[1::2, ::2].set(var.at[dim:, :dim].get())
     _var = _var.at[::2, 1::2].set(var.at[:dim, dim:].get())
     return _var
+
+
+def psd_sqrtm(P: ArrayLike) -> ArrayLike:
+    """
+    Symmetric square root of a possibly singular covariance matrix.
+    """
+    w, v = jnp.linalg.eigh(P)
+    return (v * jnp.sqrt(jnp.clip(w, 0.0))) @ v.T
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 49f5e6a..9b3b830 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -1,10 +1,9 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm
 
 
 def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=None, noise=None):
@@ -77,7 +76,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
 
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
-        var = jnp.real(linalg.sqrtm(var))  # should be LDL.T, Cholesky
+        var = psd_sqrtm(var)  # should be LDL.T, Cholesky
     init = (mean, var)
 
     one_block_transition_matrix = jnp.block(
diff --git a/bayesian_sde_solver/ssm_parabola/ekf0.py b/bayesian_sde_solver/ssm_parabola/ekf0.py
index 4ad9bd2..02acbb2 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf0.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf0.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrtm
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=True, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrtm(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
diff --git a/bayesian_sde_solver/ssm_parabola/ekf1.py b/bayesian_sde_solver/ssm_parabola/ekf1.py
index 2117f28..6fbb333 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf1.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf1.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrtm
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=False, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrtm(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
-- 
2.43.0


From 906985a8e39e142c090888ad697ee605c3d78604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 07/23] fix: padded priors gave NaN in square-root form

pad_prior makes Q singular (null rows), and its Cholesky factor was NaN, although
the same prior works with sqrt=False.
---
 bayesian_sde_solver/ode_solvers/ekf.py              | 3 ++-
 bayesian_sde_solver/ode_solvers/probnum/__init__.py | 2 +-
 bayesian_sde_solver/ode_solvers/probnum/_utils.py   | 8 ++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 490af4e..69f6b89 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -2,6 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
+from bayesian_sde_solver.ode_solvers.probnum import cholesky_null_rows
 from bayesian_sde_solver.ode_solvers.probnum import ekf
 
 
@@ -44,7 +45,7 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
             transition_matrix
         ) = prior
     if sqrt:
-        transition_covariance = jnp.linalg.cholesky(transition_covariance)
+        transition_covariance = cholesky_null_rows(transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
diff --git a/bayesian_sde_solver/ode_solvers/probnum/__init__.py b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
index c28519a..38affcd 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/__init__.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
@@ -1,5 +1,5 @@
 from .IOUP import transition_function as IOUP_transition_function
 from .matern import transition_function as matern_transition_function
-from ._utils import interlace, interlace_matrix, psd_sqrtm
+from ._utils import interlace, interlace_matrix, psd_sqrtm, cholesky_null_rows
 from .ekf import ekf
 from .transition_function import transition_function as transition_function, get_independently_factorized_prior, pad_prior
diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index a22b25d..2b08ee9 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -35,3 +35,11 @@ def psd_sqrtm(P: ArrayLike) -> ArrayLike:
     """
     w, v = jnp.linalg.eigh(P)
     return (v * jnp.sqrt(jnp.clip(w, 0.0))) @ v.T
+
+
+def cholesky_null_rows(P: ArrayLike) -> ArrayLike:
+    """
+    Cholesky factor of a covariance matrix whose null rows and columns, if any, are components without noise.
+    """
+    null = jnp.diag(P) == 0.0
+    return jnp.where(null[:, None], 0.0, jnp.linalg.cholesky(P + jnp.diag(jnp.where(null, 1.0, 0.0))))
-- 
2.43.0


From 779833b2c1ebe9413897c3697fd56786089f86a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 08/23] fix: the observation noise is a covariance in
 square-root form too

The square-root filter takes the Cholesky factor of R, but the solvers passed R
itself, so sqrt=True and sqrt=False solved different problems for R != 0, I.
---
 bayesian_sde_solver/ode_solvers/ekf.py  | 1 +
 bayesian_sde_solver/ssm_parabola/ekf.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 69f6b89..8769dbc 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -46,6 +46,7 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
         ) = prior
     if sqrt:
         transition_covariance = cholesky_null_rows(transition_covariance)
+        noise = cholesky_null_rows(noise)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 9b3b830..5f1c761 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -2,6 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
+from bayesian_sde_solver.ode_solvers.probnum import cholesky_null_rows
 from bayesian_sde_solver.ode_solvers.probnum import ekf
 from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm
 
@@ -76,6 +77,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
 
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
+        noise = cholesky_null_rows(noise)
         var = psd_sqrtm(var)  # should be LDL.T, Cholesky
     init = (mean, var)
 
-- 
2.43.0


From e15abf24d69b08258fb5f08899716afdb76a3920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 09/23] fix: the marginal parabola filters did not pass the
 prior increment to ekf

xi is a required argument of ekf, so every call raised TypeError.
---
 bayesian_sde_solver/ssm_parabola/ekf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 5f1c761..e6dc2b1 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -64,13 +64,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
             return x[1::4] - extended_vector_field(x, t)
     if prior is None:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=h, dim=1)
     else:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = prior
@@ -90,10 +90,11 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
          [jnp.zeros((2, 2)), jnp.zeros((2, 2))]]
     )
 
+    transition_incr = jnp.tile(jnp.concatenate([one_block_transition_incr, jnp.zeros((2,))]), dim)
     transition_matrix = jnp.kron(jnp.eye(dim), one_block_transition_matrix)
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
 
     return filtered
-- 
2.43.0


From d1c838600ee2b115e4b219b7c8af20c9ad4bfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 10/23] fix: euler_maruyama_pathwise scaled a NumPy increment
 array in place

With standard=True the caller's array was modified, so a second call with the
same increments gave another path.
---
 bayesian_sde_solver/sde_solvers/euler_maruyama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/sde_solvers/euler_maruyama.py b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
index 567826b..6985203 100644
--- a/bayesian_sde_solver/sde_solvers/euler_maruyama.py
+++ b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
@@ -39,7 +39,7 @@ def solver_pathwise(incs, init, drift, sigma, h, N, standard=False):
 
     ts = jnp.linspace(0, N * h, N + 1)
     if standard:
-        incs *= h ** 0.5
+        incs = incs * h ** 0.5
     inps = incs, ts[:-1]
     _, samples = jax.lax.scan(body, init, inps)
     samples = jnp.insert(samples, 0, init, axis=0)
-- 
2.43.0


From 4d44002d35d4e8114e5049afd7b63e5fd8b35987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 11/23] fix: area of get_approx_and_brownian was integrated
 over the wrong points

The trapezoidal rule skipped B_0 and B_1 and read past the end of the path (the
last point was counted twice by index clamping).
---
 bayesian_sde_solver/foster_polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/foster_polynomial.py b/bayesian_sde_solver/foster_polynomial.py
index ef58d22..3310d05 100644
--- a/bayesian_sde_solver/foster_polynomial.py
+++ b/bayesian_sde_solver/foster_polynomial.py
@@ -38,9 +38,10 @@ def get_approx_and_brownian(dim=1, N=1000):
         bm = jnp.cumsum(incs, axis=0)
         bm *= jnp.sqrt(dt / N)
 
-        _is = jnp.arange(1, N + 1)
+        _is = jnp.arange(0, N + 1)
 
         eps_0 = bm.at[-1].get()
+        bm = jnp.insert(bm, 0, 0.0, axis=0)
 
         @jax.vmap
         def integrand(i):
-- 
2.43.0


From 76f972c4febe1e711b36770a708116a3bac05eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 12/23] fix: state-dependent terms of the 1.5 Ito-Taylor scheme

The L^0 b terms were contracted to a scalar added to every component, and the
L^1 L^1 b term missed its factor eta, which left an O(h) bias in the mean for
multiplicative noise (Kloeden, Platen, 10.4).
---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index fdb0a0c..ce223fa 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -59,11 +59,11 @@ def solver(key, init, drift, sigma, h, N):
                 * partialxsigma(x)
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
-                + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
-                + 0.5 * laplacesigma(x) @ (h * eta_k - zeta_k)
+                + partialxsigma(x) @ drift(x) * (h * eta_k - zeta_k)
+                + 0.5 * laplacesigma(x) * (h * eta_k - zeta_k)
                 + 0.5
-                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + laplacesigma(x))
-                @ (1 / 3 * eta_k @ eta_k.T - h * jnp.ones(dim))
+                * (partialxsigma(x) @ partialxsigma(x) @ diagSigma(x) + laplacesigma(x))
+                * (1 / 3 * jnp.square(eta_k) - h * jnp.ones(dim)) * eta_k
         )
         return out, out
 
-- 
2.43.0


From beeecd603934828ada0c1b7d78f97f37d019e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:50 +0000
Subject: [PATCH 13/23] fix: indices of the reduced synaptic conductance model

The two-dimensional model kept the indices of the full one: both conductances
read x[1] (x[2] is clamped).
---
 bayesian_sde_solver/utils/ivp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index fedc79d..137a5b3 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -163,16 +163,16 @@ def synaptic_conductance_reduced():
 
     def drift(x):
         return jnp.array(
-            [-1.0 / tau_E * (x[1] - gbar_E), -1.0 / tau_I * (x[2] - gbar_I)]
+            [-1.0 / tau_E * (x[0] - gbar_E), -1.0 / tau_I * (x[1] - gbar_I)]
         )
 
     def sigma(x):
         return jnp.array(
-            [[sig_E * x[1] ** 0.5, 0.0], [0.0, sig_I * x[2] ** 0.5]]
+            [[sig_E * x[0] ** 0.5, 0.0], [0.0, sig_I * x[1] ** 0.5]]
         )
 
     def theoretical_mean_up_to_order_2(t):
-        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[1], -1.0 / tau_I * drift(x0)[2]])
+        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[0], -1.0 / tau_I * drift(x0)[1]])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2
 
-- 
2.43.0


From ed67e98468633779e3e65264db4f3ab353eb50f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:50 +0000
Subject: [PATCH 14/23] fix: sign of alpha in the second-order mean of
 FitzHugh-Nagumo

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 137a5b3..f2aaa4e 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -40,7 +40,7 @@ def fhn():
         return x0 + t * jnp.array(
             [1 / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) + t / 2 * 1 / eps * (
                     1 / eps * (1 - 3 * x0[0] ** 2) * (x0[0] - x0[0] ** 3 - x0[1] + s)
-                    - (gamma * x0[0] - x0[1] - alpha)),
+                    - (gamma * x0[0] - x0[1] + alpha)),
              gamma * x0[0] - x0[1] + alpha + t / 2 * (
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
-- 
2.43.0


From 342abb94edd91601b73e57f6cb837041edce2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:50 +0000
Subject: [PATCH 15/23] fix: the synaptic conductance mean expansion read a
 conductance as the voltage

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index f2aaa4e..3eddd19 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -329,7 +329,7 @@ def synaptic_conductance():
 
     def theoretical_mean_up_to_order_2(t):
         return (x0 + t * drift(x0) + t ** 2 / 2 * jnp.array(
-            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[1] - V_E) + drift(x0)[2] * (
+            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[0] - V_E) + drift(x0)[2] * (
                     x0[0] - V_I)),
              -1.0 / tau_E * drift(x0)[1],
              -1.0 / tau_I * drift(x0)[2]])
-- 
2.43.0


From d85897f000fd13ffdbe57b9dfa8b46c0199db199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 16/23] fix: predict and update could not be called as a plain
 Kalman filter

The precedence of the conditional made update return ((m, P), None) instead of (m, P)
when S is not asked for, and predict had no default for the prior increment; both are
how tests/test_ekf.py uses them.
---
 bayesian_sde_solver/ode_solvers/probnum/ekf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/ekf.py b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
index c2d6937..b439cb4 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
@@ -10,7 +10,7 @@ def tria(A):
     return jnp.triu(r[:n, :n]).T
 
 
-def predict(x, A, Q_or_cholQ, xi, lower_sqrt=False):
+def predict(x, A, Q_or_cholQ, xi=0.0, lower_sqrt=False):
     m, P_or_cholP = x
     if lower_sqrt:
         P_or_cholP = tria(jnp.concatenate([A @ P_or_cholP, Q_or_cholQ], axis=1))
@@ -34,13 +34,13 @@ def update(x, c, H, R_or_cholR, lower_sqrt=False, return_S=False):
         I = chol_S[:ny, :ny]
 
         m = m - G @ linalg.solve_triangular(I, c, lower=True)
-        return (m, cholP), I if return_S else None
+        return ((m, cholP), I) if return_S else (m, cholP)
     S = H @ P_or_cholP @ H.T + R_or_cholR
     S_invH = linalg.solve(S, H, assume_a='pos')
     K = (S_invH @ P_or_cholP).T
     b = m - K @ c
     C = P_or_cholP - K @ H @ P_or_cholP
-    return (b, C), S if return_S else None
+    return ((b, C), S) if return_S else (b, C)
 
 
 def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None, lower_sqrt=False,
@@ -75,7 +75,7 @@ def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None,
         y = (m,) if param is None else (m, *param)
         H = jax.jacfwd(observation_function, 0)(*y)
         c = observation_function(*y)
-        x, _ = update(x, c, H, R_or_cholR, lower_sqrt, return_S=False)
+        x = update(x, c, H, R_or_cholR, lower_sqrt, return_S=False)
         return x, None
 
     if return_UC:
-- 
2.43.0


From 31b2bdba08c18821d57d9691897a984c51232077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 17/23] fix: random_linear_sde drew the drift and the diffusion
 matrix from the same key

The two matrices were always equal.
---
 bayesian_sde_solver/utils/ivp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 3eddd19..d706ce9 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -131,9 +131,11 @@ def random_linear_sde(key=jax.random.PRNGKey(1337), dim=1, std1=None, std2=None)
 
     x0 = jnp.ones((dim,))
 
-    drift_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_key, sigma_key = jax.random.split(key)
 
-    sigma_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_matrix = jax.random.normal(drift_key, shape=(dim, dim))
+
+    sigma_matrix = jax.random.normal(sigma_key, shape=(dim, dim))
 
     def drift(x, t):
         return std1 @ drift_matrix @ x
-- 
2.43.0


From 577f99ff94e85d61530bc3a420f8d197c3e4f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 18/23] fix: FHN variance formula misses its terms of order 3

---
 bayesian_sde_solver/utils/ivp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index d706ce9..2516945 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -45,10 +45,11 @@ def fhn():
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
     def theoretical_variance_up_to_order3(t):
+        cov = -1 / 2 * t ** 2 * 1 / eps + 1 / 6 * t ** 3 * 1 / eps * (3 - 1 / eps * (1 - 3 * x0[0] ** 2))
         return sig ** 2 * jnp.array(
             [
-                [1 / 3 * t ** 3 * 1 / eps ** 2, -1 / 2 * t ** 2 * 1 / eps],
-                [-1 / 2 * t ** 2 * 1 / eps, t - t ** 2],
+                [1 / 3 * t ** 3 * 1 / eps ** 2, cov],
+                [cov, t - t ** 2 + 1 / 3 * t ** 3 * (2 - gamma / eps)],
             ])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2, theoretical_variance_up_to_order3
-- 
2.43.0


From d3b43058b6f5b7e593f17ac86010fed3be1f89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:12 +0000
Subject: [PATCH 19/23] fix: samples drawn with square-root covariances
 depended on rounding

The QR factor of a singular posterior covariance is not unique: which one comes out depends on
rounding, so that vmap, jit and single calls with the same key returned different samples
(ssm_parabola filters, O(1) differences). Sample with the symmetric square root of the covariance.
---
 bayesian_sde_solver/ode_solvers/ekf0.py             | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf0_2.py           | 6 +++---
 bayesian_sde_solver/ode_solvers/ekf1.py             | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1_2.py           | 6 +++---
 bayesian_sde_solver/ode_solvers/probnum/__init__.py | 2 +-
 bayesian_sde_solver/ode_solvers/probnum/_utils.py   | 9 +++++++++
 bayesian_sde_solver/ssm_parabola/ekf0.py            | 4 ++--
 bayesian_sde_solver/ssm_parabola/ekf1.py            | 4 ++--
 8 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 0872bcd..c92cbf3 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -2,7 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.ekf1 import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm, symmetric_factor
 
 
 def _second_derivative(vector_field, x, t):
@@ -47,7 +47,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else psd_sqrtm(P)
+        sqrtP = symmetric_factor(P) if sqrt else psd_sqrtm(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),
                                                                  jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf0_2.py b/bayesian_sde_solver/ode_solvers/ekf0_2.py
index 92ab91d..dceb135 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0_2.py
@@ -2,7 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrtm
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrtm, symmetric_factor
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -32,8 +32,8 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     else:
         m, P = filtered
     if sqrt:
-        sqrtP = P
-        P = sqrtP @ sqrtP.T
+        sqrtP = symmetric_factor(P)
+        P = P @ P.T
     else:
         sqrtP = psd_sqrtm(P)
     if key is not None:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index ae43c06..8da06f1 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -2,7 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm, symmetric_factor
 
 
 def _second_derivative(vector_field, x, t):
@@ -44,7 +44,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else psd_sqrtm(P)
+        sqrtP = symmetric_factor(P) if sqrt else psd_sqrtm(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)), jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
     last_value = jnp.vstack(m[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf1_2.py b/bayesian_sde_solver/ode_solvers/ekf1_2.py
index 9ad79b4..524cf59 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1_2.py
@@ -2,7 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrtm
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrtm, symmetric_factor
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -37,8 +37,8 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     else:
         m, P = filtered
     if sqrt:
-        sqrtP = P
-        P = sqrtP @ sqrtP.T
+        sqrtP = symmetric_factor(P)
+        P = P @ P.T
     else:
         sqrtP = psd_sqrtm(P)
     if key is not None:
diff --git a/bayesian_sde_solver/ode_solvers/probnum/__init__.py b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
index 38affcd..ad36622 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/__init__.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
@@ -1,5 +1,5 @@
 from .IOUP import transition_function as IOUP_transition_function
 from .matern import transition_function as matern_transition_function
-from ._utils import interlace, interlace_matrix, psd_sqrtm, cholesky_null_rows
+from ._utils import interlace, interlace_matrix, psd_sqrtm, symmetric_factor, cholesky_null_rows
 from .ekf import ekf
 from .transition_function import transition_function as transition_function, get_independently_factorized_prior, pad_prior
diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 2b08ee9..dd94584 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -37,6 +37,15 @@ def psd_sqrtm(P: ArrayLike) -> ArrayLike:
     return (v * jnp.sqrt(jnp.clip(w, 0.0))) @ v.T
 
 
+def symmetric_factor(L: ArrayLike) -> ArrayLike:
+    """
+    Symmetric square root of L @ L.T, which unlike L itself is determined by the covariance:
+    the QR factor of a singular covariance depends on rounding.
+    """
+    u, s, _ = jnp.linalg.svd(L)
+    return (u * s) @ u.T
+
+
 def cholesky_null_rows(P: ArrayLike) -> ArrayLike:
     """
     Cholesky factor of a covariance matrix whose null rows and columns, if any, are components without noise.
diff --git a/bayesian_sde_solver/ssm_parabola/ekf0.py b/bayesian_sde_solver/ssm_parabola/ekf0.py
index 02acbb2..b841ec9 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf0.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf0.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from bayesian_sde_solver.ode_solvers.probnum import psd_sqrtm
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrtm, symmetric_factor
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=True, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else psd_sqrtm(P)
+        sqrtP = symmetric_factor(P) if sqrt else psd_sqrtm(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
diff --git a/bayesian_sde_solver/ssm_parabola/ekf1.py b/bayesian_sde_solver/ssm_parabola/ekf1.py
index 6fbb333..1f71747 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf1.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf1.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from bayesian_sde_solver.ode_solvers.probnum import psd_sqrtm
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrtm, symmetric_factor
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=False, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else psd_sqrtm(P)
+        sqrtP = symmetric_factor(P) if sqrt else psd_sqrtm(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
-- 
2.43.0


From 5974b9e23274a1132c50d6dc63bb2fe6d1f766ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 20/23] fix: Matern 3/2 covariance without cancellation for
 small steps

---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index 909c5b2..555190d 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -2,6 +2,7 @@ from math import comb
 from typing import Tuple
 
 import jax.numpy as jnp
+from jax.scipy.special import gammainc
 from numpy.typing import ArrayLike
 
 from bayesian_sde_solver.ode_solvers.probnum.transition_function import \
@@ -50,13 +51,11 @@ ArrayLike]:
                         jnp.exp(-dt * lambda_param) * (1 - lambda_param * dt)]])
         A = jnp.kron(jnp.eye(dim), A)
 
-        Q = magnitude ** 2 * jnp.array([[(1 + jnp.exp(-2 * dt * lambda_param) * (
-                -1. - 2 * dt * lambda_param * (1 + dt * lambda_param))) / (4 * lambda_param ** 3),
-                                         0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2],
-                                        [0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2,
-                                         jnp.exp(-2 * dt * lambda_param) * (
-                                                 -1 + jnp.exp(2 * dt * lambda_param) - 2 * dt * lambda_param * (
-                                                 -1 + dt * lambda_param)) / (4 * lambda_param)]])
+        # 1 - e^{-y} (1 + y + y^2/2) without the cancellation for small y = 2 h \lambda
+        y = 2 * dt * lambda_param
+        P = gammainc(3., y)
+        Q = magnitude ** 2 * jnp.array([[P / (4 * lambda_param ** 3), 0.5 * jnp.exp(-y) * dt ** 2],
+                                        [0.5 * jnp.exp(-y) * dt ** 2, (P + 2 * y * jnp.exp(-y)) / (4 * lambda_param)]])
         Q = jnp.kron(jnp.eye(dim), Q)
         m = jnp.zeros(dim * 2)
     else:
-- 
2.43.0


From 0c9546405fdd8e4de8fb97f83278ce87410037e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 21/23] fix: square roots of covariances lost small variances
 next to large ones

---
 .../ode_solvers/probnum/_utils.py             | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index dd94584..5d022bc 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -29,21 +29,32 @@ def interlace_matrix(v: ArrayLike, w: ArrayLike, x: ArrayLike, y: ArrayLike) ->
     return _var
 
 
+def _scales(sd):
+    """
+    Positive scales at which components of standard deviations sd are comparable, those which are rounding errors remaining so.
+    """
+    scales = jnp.maximum(sd, jnp.sqrt(jnp.finfo(sd.dtype).eps) * jnp.max(sd))
+    return jnp.where(scales > 0.0, scales, 1.0)[:, None]
+
+
 def psd_sqrtm(P: ArrayLike) -> ArrayLike:
     """
-    Symmetric square root of a possibly singular covariance matrix.
+    Square root of a possibly singular covariance matrix: the symmetric one of the correlation matrix,
+    rescaled, so that small variances are not lost next to large ones.
     """
-    w, v = jnp.linalg.eigh(P)
-    return (v * jnp.sqrt(jnp.clip(w, 0.0))) @ v.T
+    D = _scales(jnp.sqrt(jnp.clip(jnp.diag(P), 0.0)))
+    w, v = jnp.linalg.eigh(P / D / D.T)
+    return D * ((v * jnp.sqrt(jnp.clip(w, 0.0))) @ v.T)
 
 
 def symmetric_factor(L: ArrayLike) -> ArrayLike:
     """
-    Symmetric square root of L @ L.T, which unlike L itself is determined by the covariance:
+    psd_sqrtm(L @ L.T), which unlike L itself is determined by the covariance:
     the QR factor of a singular covariance depends on rounding.
     """
-    u, s, _ = jnp.linalg.svd(L)
-    return (u * s) @ u.T
+    D = _scales(jnp.linalg.norm(L, axis=1))
+    u, s, _ = jnp.linalg.svd(L / D)
+    return D * ((u * s) @ u.T)
 
 
 def cholesky_null_rows(P: ArrayLike) -> ArrayLike:
-- 
2.43.0


From fe719ac8641b0390721a580232a03088b1a9bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 22/23] fix: initial covariance factor of the marginal parabola
 filters lost its null space in small steps

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index e6dc2b1..3e2b8e5 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -4,7 +4,7 @@ import jax.numpy as jnp
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import cholesky_null_rows
 from bayesian_sde_solver.ode_solvers.probnum import ekf
-from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrtm
+from bayesian_sde_solver.ode_solvers.probnum import interlace
 
 
 def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=None, noise=None):
@@ -78,7 +78,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
         noise = cholesky_null_rows(noise)
-        var = psd_sqrtm(var)  # should be LDL.T, Cholesky
+        # var is singular, the derivative being a function of the coefficients: its exact factor
+        s0 = diffusion(init, 0.0) / jnp.sqrt(delta)
+        var = jnp.block([[jnp.array([[0, 0, 0, 0],
+                                     [0, 0, s0[i, j], jnp.sqrt(3) * s0[i, j]],
+                                     [0, 0, jnp.sqrt(delta) if i == j else 0, 0],
+                                     [0, 0, 0, jnp.sqrt(delta / 2) if i == j else 0]])
+                          for j in range(dim)] for i in range(dim)])
     init = (mean, var)
 
     one_block_transition_matrix = jnp.block(
-- 
2.43.0


From d6186387b8be1e53d875cb40548c4efc06ac06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:16 +0000
Subject: [PATCH 23/23] fix: samples from covariance matrices in single
 precision amplified their rounding errors

The scaled symmetric root divides components by standard deviations which, in covariance form, may be rounding errors, and multiplies them by a factor. The plain symmetric root is kept there; the scaled one remains for square-root factors, whose small variances are accurate.
---
 bayesian_sde_solver/ode_solvers/probnum/_utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 5d022bc..39fde0b 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -39,18 +39,17 @@ def _scales(sd):
 
 def psd_sqrtm(P: ArrayLike) -> ArrayLike:
     """
-    Square root of a possibly singular covariance matrix: the symmetric one of the correlation matrix,
-    rescaled, so that small variances are not lost next to large ones.
+    Symmetric square root of a possibly singular covariance matrix.
     """
-    D = _scales(jnp.sqrt(jnp.clip(jnp.diag(P), 0.0)))
-    w, v = jnp.linalg.eigh(P / D / D.T)
-    return D * ((v * jnp.sqrt(jnp.clip(w, 0.0))) @ v.T)
+    w, v = jnp.linalg.eigh(P)
+    return (v * jnp.sqrt(jnp.clip(w, 0.0))) @ v.T
 
 
 def symmetric_factor(L: ArrayLike) -> ArrayLike:
     """
-    psd_sqrtm(L @ L.T), which unlike L itself is determined by the covariance:
-    the QR factor of a singular covariance depends on rounding.
+    Square root of L @ L.T, which unlike L itself is determined by the covariance: the QR factor of a singular
+    covariance depends on rounding. It is the symmetric one of the correlation matrix, rescaled, so that small
+    variances are not lost next to large ones.
     """
     D = _scales(jnp.linalg.norm(L, axis=1))
     u, s, _ = jnp.linalg.svd(L / D)
-- 
2.43.0

