From 558463f7fd10518216f0e17051465ae24f6ae5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 01/37] fix: Huber iterations multiply samples by their weight
 instead of dividing

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b2508dd..aa2bd24 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -172,7 +172,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.T
 
         # condition for stopping
@@ -764,7 +764,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.conj().T
 
         # mask_scm = tau<=a
-- 
2.43.0


From 3901ce39d98716dd97f5dcbffa6ab57ffbde71dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 02/37] fix: real Huber threshold and scale are those of real
 Gaussian data

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index aa2bd24..ee4c813 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,8 +158,8 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         sigma = init
         
     # Estimating lambda and beta
-    lbda = chi2.ppf(q, p)/2    
-    beta = chi2.cdf(2*lbda, p+1) + 2*lbda*(1-q)/p
+    lbda = chi2.ppf(q, p)
+    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
-- 
2.43.0


From fe2d8289ff006fc1789f18ed56f5ea4487e72f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 03/37] fix: Student-t weights of the real and complex
 estimators were swapped

---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index ee4c813..4a79c48 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -246,9 +246,9 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
-        tau = df/2 + np.real(tau)
+        tau = df + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df/2+p)/N) * temp@temp.T
+        sigma_new = ((df+p)/N) * temp@temp.T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
@@ -850,9 +850,9 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
-        tau = df + np.real(tau)
+        tau = df/2 + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df+p)/N) * temp@temp.conj().T
+        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
-- 
2.43.0


From 18a99468253a4b38571e0a22f0008a9120f63bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 04/37] fix: set the (zero) location in the centered estimators
 so that score and mahalanobis work

---
 robuststats/estimation/covariance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 4a79c48..8b7e098 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -514,6 +514,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         covariance, err, iteration = huber_m_estimator_fixed_point(
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
@@ -588,6 +589,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         covariance, err, iteration = student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
@@ -690,6 +692,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
@@ -1088,6 +1091,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         covariance, err, iteration = complex_huber_m_estimator_fixed_point(
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
@@ -1166,6 +1170,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         covariance, err, iteration = complex_student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
@@ -1269,6 +1274,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
-- 
2.43.0


From 4dbbd7087e497fcf3a68632cff7dce09f0434b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 05/37] fix: fit uses the method currently set on the Tyler
 estimators

---
 robuststats/estimation/covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 8b7e098..b5cc0ab 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -692,6 +692,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.set_method()
         self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
@@ -1274,6 +1275,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         if self.iteration_ > 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.set_method()
         self.location_ = np.zeros(X.shape[1], dtype=X.dtype)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
-- 
2.43.0


From ade81e6ee10f1c35c9cf7e2797c6615b186e5abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 06/37] fix: map the complex initial point of the natural
 gradient to its real equivalent

---
 robuststats/estimation/covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b5cc0ab..a728e32 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -20,7 +20,8 @@ from sklearn.utils.validation import _deprecate_positional_args
 from sklearn.covariance import EmpiricalCovariance, empirical_covariance
 from .base import complex_empirical_covariance, ComplexEmpiricalCovariance,\
                 RealEmpiricalCovariance
-from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex
+from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex,\
+                covariancetoreal
 from ..models.manifolds import HermitianPositiveDefinite
 from ..models.cost import Tyler_cost_real, Tyler_cost_complex
 from ..models.probability import complex_multivariate_t
@@ -917,6 +918,8 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
         Always None. For compatibility purposes
     """
     X_real = arraytoreal(X)
+    if init is not None:
+        init = covariancetoreal(init)
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From 39b5cddc575b7ec1d23cdef830d49f68dc765412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 07/37] fix: Kronecker MM update of A estimated the conjugate
 of A

---
 robuststats/estimation/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 35d9cab..6359b1d 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -97,7 +97,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         M = np.zeros((a, a), dtype=Y.dtype)
         M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator[:, :, i] = M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]
+            M_numerator[:, :, i] = M_i[:, :, i].T @ i_B.conj() @ M_i[:, :, i].conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
         A_new = sqrtm_A @ sp.linalg.sqrtm(isqrtm_A @ M @ isqrtm_A) @ sqrtm_A
@@ -108,7 +108,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         # Update B with eq. (67)
         M = np.zeros((b, b), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator_B = M_i[:, :, i] @ i_A @  M_i[:, :, i].T.conj()
+            M_numerator_B = M_i[:, :, i] @ i_A.T @ M_i[:, :, i].T.conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += b/n_samples * (M_numerator_B/M_denominator)
         B_new = sqrtm_B @ sp.linalg.sqrtm(isqrtm_B @ M @ isqrtm_B) @ sqrtm_B
-- 
2.43.0


From 48bb592b35e36b69636a2756e74064325d003cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 08/37] fix: Kronecker MM returns the final error instead of
 the tolerance

---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 6359b1d..38989a8 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -129,7 +129,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     if iteration == iter_max:
         logging.info('Recursive algorithm did not converge')
 
-    return A, B, tol, iteration
+    return A, B, delta, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From ff2ebd11fc1914363749d88adec0d814c8770483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 09/37] fix: Kronecker Student-t gradient is the gradient of
 its cost

---
 robuststats/estimation/structured.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 38989a8..9fe957b 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -275,11 +275,13 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
         grad_A = np.zeros_like(A)
         grad_B = np.zeros_like(B)
         for i in range(n_samples):
-            M_i = X[i, :].reshape((b, a), order='F')
-            Q_i = np.real(np.trace(i_A@M_i.T@i_B@M_i))
+            M_i = Y[i, :].reshape((b, a), order='F')
+            S_i = M_i.T@i_B.conj()@M_i.conj()
+            Q_i = np.real(np.trace(i_A@S_i))
 
-            grad_A -= (df+a*b)/(df+Q_i) * i_A@(M_i.T.conj()@i_B@M_i)@i_A
-            grad_B -= (df+a*b)/(df+Q_i) * i_B@(M_i@i_A@M_i.T.conj())@i_B
+            grad_A -= (df+2*a*b)/(df+2*Q_i) * i_A@S_i@i_A
+            grad_B -= (df+2*a*b)/(df+2*Q_i) *\
+                i_B@(M_i@i_A.T@M_i.T.conj())@i_B
         grad_A = grad_A/n_samples + b*i_A
         grad_B = grad_B/n_samples + a*i_B
 
-- 
2.43.0


From b59073d35701bb3c6a0acbbea698b9020ac1247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 10/37] fix: KroneckerStudent.score is the log-likelihood under
 the fitted covariance

---
 robuststats/estimation/structured.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 9fe957b..234c5d0 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -405,15 +405,10 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        # compute empirical covariance of the test set
-        A, B = _estimate_covariance_kronecker_t_gradient(
-            X_test, self.df, self.a, self.b, self.manifold, self.location_,
-            self.verbosity
-        )
         # compute log likelihood
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
         )
-        res = cost_function(A, B)
+        res = -cost_function(self.A_, self.B_)
 
         return res
-- 
2.43.0


From fdb4b0cd22671aea7d5dd2b83221b998c9551683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 11/37] fix: riemannian gradient of the Kronecker manifold
 accounts for its own metric

---
 robuststats/models/manifolds.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 67c57d6..35ca3ea 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -477,3 +477,11 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
             (self._alpha - 1) * (self._a**2) *\
             np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
         return _part_A + _part_B
+
+    def egrad2rgrad(self, theta, u):
+        rgrad = super().egrad2rgrad(theta, u)
+        alpha, B = self._alpha, theta[1]
+        t = np.real(np.trace(multiprod(B, u[1]), axis1=-2, axis2=-1))
+        t = (alpha - 1)*t / (alpha*(alpha + (alpha - 1)*self._n))
+        rgrad[1] = rgrad[1] - t[..., np.newaxis, np.newaxis]*B
+        return rgrad
-- 
2.43.0


From 9c870975a46e8b808c7613160469a4bac3c3d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 12/37] fix: trace term of the Kronecker inner product is
 summed over the k matrices

---
 robuststats/models/manifolds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 35ca3ea..fcbbf27 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -475,7 +475,9 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                     np.tensordot(_part_B_xi, multitransp(_part_B_eta),
                                  axes=theta[1].ndim)) +\
             (self._alpha - 1) * (self._a**2) *\
-            np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
+            np.real(np.sum(
+                np.trace(_part_B_xi, axis1=-2, axis2=-1) *
+                np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
 
     def egrad2rgrad(self, theta, u):
-- 
2.43.0


From 51661cd627cabe04bfaef7b30437723b1d0f4831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 13/37] fix: random tangent vectors of the product manifolds
 have unit norm

---
 robuststats/models/manifolds.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index fcbbf27..0c4e8ea 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -414,7 +414,7 @@ class WeightedProduct(man.Product):
         weights = self._weights
         scale = len(self._manifolds) ** (-1/2)
         return _ProductTangentVector(
-            [scale * (1/weights[k]**(-1/2)) * man.randvec(X[k])
+            [scale * weights[k]**(-1/2) * man.randvec(X[k])
              for k, man in enumerate(self._manifolds)])
 
 
@@ -480,6 +480,10 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                 np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
 
+    def randvec(self, theta):
+        u = super().randvec(theta)
+        return (1/np.sqrt(self.inner(theta, u, u))) * u
+
     def egrad2rgrad(self, theta, u):
         rgrad = super().egrad2rgrad(theta, u)
         alpha, B = self._alpha, theta[1]
-- 
2.43.0


From d0cdaf47f1396a2312bf90a3e1fcedbb9ef9d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 14/37] fix: real dimension of the Hermitian manifolds

---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 0c4e8ea..27dfcd3 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -108,7 +108,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
                     ({} x {}) matrices").format(n, n)
         else:
             name = "Product manifold of {} ({} x {}) matrices".format(k, n, n)
-        dimension = 2 * int(k * n * (n + 1) / 2)
+        dimension = int(k * n**2)
         super().__init__(name, dimension)
 
     def rand(self):
@@ -275,7 +275,7 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         else:
             name = "Product manifold of {} special Hermitian positive\
                     definite ({} x {}) matrices".format(k, n, n)
-        dimension = int(k * (n*(n+1) - 1))
+        dimension = int(k * (n**2 - 1))
         super().__init__(name, dimension)
 
     def rand(self):
-- 
2.43.0


From 65212a282c2c103f20c2bcea76b7d057cb9c5471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 15/37] fix: vectorize only the stored elements of a
 _FeatureArray

---
 robuststats/estimation/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 57fe59a..cb27bd9 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -120,6 +120,7 @@ class _FeatureArray():
 
         temp = list()
         for a in self._array:
+            a = a[:len(self)]
             vec = None
             bs = len(a)
 
-- 
2.43.0


From 85bf6482b4831ce337c4dfd378d7ff0b97dc2bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 16/37] fix: _FeatureArray accepts numpy integers as index

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index cb27bd9..81e6930 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -72,7 +72,7 @@ class _FeatureArray():
         a = self._array
         a = [a[i][:len(self)] for i in range(len(a))]
         temp = [a[i][key] for i in range(len(a))]
-        if type(key) == int:
+        if isinstance(key, (int, np.integer)):
             temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
         f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
         f_a.append(temp)
-- 
2.43.0


From cb8b9a8e5ab8fa898e3d1a8f3d0c5441afad1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 17/37] fix: _FeatureArray.append rejects data of the wrong
 shape

---
 robuststats/estimation/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 81e6930..35e1c4c 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -102,6 +102,10 @@ class _FeatureArray():
                 d = d[np.newaxis, ...]
 
             check_value(d.ndim, 'd.ndim', [len(self._shape[i])+1])
+            check_value(d.shape[1:], 'd.shape', [tuple(self._shape[i])])
+            if i > 0:
+                check_value(len(d), 'len(d)', [batch_size])
+            batch_size = len(d)
 
             if a is None:
                 self._array[i] = d
-- 
2.43.0


From 0149de980cdfed15256f5fa6b8b3a97ca4fdcd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 18/37] fix: batch covariances of integer data are not
 truncated

---
 robuststats/estimation/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 35e1c4c..e27c944 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -263,7 +263,8 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             ndarray of covariance matrices for each trials.
         """
         n_trials, n_samples, n_features = X.shape
-        covmats = np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
+        dtype = X.dtype if np.issubdtype(X.dtype, np.inexact) else float
+        covmats = np.zeros((n_trials, n_features, n_features), dtype=dtype)
         if self.n_jobs == 1:
             for i in range(n_trials):
                 self.estimator.fit(X[i, :, :], **kwargs)
-- 
2.43.0


From 792a5e3a2e1fa8dec14ba0c128777bcca73769c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 19/37] fix: unvech inverts vech for complex Hermitian and for
 integer matrices

---
 robuststats/utils/linalg.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 0a13348..3b2d1ea 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -179,10 +179,8 @@ def unvech(v):
     rows = int(np.round(rows))
 
     result = np.zeros((rows, rows), dtype=v.dtype)
-    result[np.triu_indices(rows)] = v
-    result = result + result.conj().T
-
-    # divide diagonal elements by 2
-    result[np.diag_indices(rows)] /= 2
+    # vech stores the lower triangle column by column
+    result.T[np.triu_indices(rows)] = v
+    result = result + np.tril(result, -1).conj().T
 
     return result
\ No newline at end of file
-- 
2.43.0


From 0d572eec56e15d647140d275a0b527d90bec0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 20/37] fix: complex normal and t models with scalar covariance
 or complex mean only

---
 robuststats/models/probability.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 1107ff6..e7d021b 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -37,6 +37,11 @@ def _check_parameters_complex_normal(mean, cov):
     array_like
         Covariance matrix of the distribution, complex if necessary.
     """
+    cov = np.asarray(cov)
+    if mean is not None:
+        mean = np.asarray(mean)
+    if cov.ndim == 0:
+        cov = cov*np.eye(1 if mean is None else mean.size)
     if mean is None:
         mean = np.zeros((len(cov),), dtype=cov.dtype)
 
@@ -71,7 +76,7 @@ def _check_parameters_array_complex_normal(X, mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
-    if np.iscomplexobj(cov):
+    if np.iscomplexobj(cov) or np.iscomplexobj(mean):
         if np.isrealobj(X):
             logging.warning(
                 "Input data is real while parameters are complex. "
-- 
2.43.0


From 002a41711bb49e58dfc4854216ea1eec8b22d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 21/37] fix: complex_multivariate_t.logpdf and pdf handle
 complex data and parameters

---
 robuststats/models/probability.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index e7d021b..bbb7c37 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -378,6 +378,24 @@ class complex_multivariate_t_gen(multivariate_t_gen):
 
         return x
 
+    def logpdf(self, x, loc=None, shape=1, df=1):
+        """Log of the multivariate t-distribution probability density
+        function. See `multivariate_t` for the parameters.
+        """
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).logpdf(x, loc, shape, df))
+
+    def pdf(self, x, loc=None, shape=1, df=1, allow_singular=False):
+        """Multivariate t-distribution probability density function.
+        See `multivariate_t` for the parameters.
+        """
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen, self).pdf(
+            x, loc, shape, df, allow_singular))
+
     def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
         """Draw random samples from a multivariate t-distribution.
         Parameters
-- 
2.43.0


From 3caaea385293c8bfbb7c14109f99139d5221fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 22/37] fix: frozen complex normal cdf accepts the lower_limit
 scipy passes

---
 robuststats/models/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index bbb7c37..6a1ad76 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -109,11 +109,11 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
         return np.real(super(complex_multivariate_normal_frozen,
                              self).logpdf(x))
 
-    def cdf(self, x):
+    def cdf(self, x, **kwargs):
         x, _, _ = _check_parameters_array_complex_normal(
             x, self._mean_orig, self._cov_orig)
         return np.real(super(complex_multivariate_normal_frozen,
-                             self).cdf(x))
+                             self).cdf(x, **kwargs))
 
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._mean_orig) or\
-- 
2.43.0


From 80bb03c74324ef7109c9b932fc46d5efb2ae716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 23/37] fix: stochastic gradient moves against the gradient

---
 robuststats/online/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 317aa30..74b9f4a 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -56,7 +56,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         # TODO: constant step + geodesic between past two iterations
         nabla = self._rgrad(X, self.estimate_)
-        t = self._current_lr(lr_update, self._iteration)
+        t = -self._current_lr(lr_update, self._iteration)
         if isinstance(nabla, list):
             t_nabla = [t*x for x in nabla]
         elif isinstance(nabla, tuple):
-- 
2.43.0


From 6c7466ee62c2c62cad772acf530c6e88a6bb7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 24/37] fix: stochastic gradient fit restarts from its initial
 point

---
 robuststats/online/estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 74b9f4a..de4c73e 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -70,7 +70,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
 
-        self.set_estimate(init)
+        if init is not None:
+            self.set_estimate(init)
+            self._iteration = 0
         if self.estimate_ is None:
             logging.error(
              "Estimator not initilaized. Please provide an initial point."
-- 
2.43.0


From 5995f03b84b93746a169fe1b8d077acdfee93509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 25/37] fix: stochastic gradient update counts its iterations

---
 robuststats/online/estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index de4c73e..df7d5b0 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -66,6 +66,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         estimate = self._manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
+        self._iteration += 1
         return self
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
@@ -92,6 +93,4 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                     cost = self._cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
-            self._iteration += 1
-
         return self
-- 
2.43.0


From 9e59a4e3d6b9218922f5c7985c669c2acbb1bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 26/37] fix: arraytocomplex rejects arrays with an odd number
 of columns

---
 robuststats/models/mappings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 379f51f..0cc5026 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -64,6 +64,8 @@ def arraytocomplex(a):
         when input array format is not of dimension 1 or 2.
     """
     if not np.iscomplexobj(a):
+        if a.ndim in (1, 2) and a.shape[-1] % 2:
+            raise AttributeError("Input array format not supported")
         if a.ndim == 1:
             p = int(len(a)/2)
             return a[:p] + 1j*a[p:]
-- 
2.43.0


From 559ed76c91900260cc2a38f529e681d9e12a52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 27/37] fix: complex error_norm uses the modulus of the error
 matrix

---
 robuststats/estimation/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index e27c944..da5d2e7 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -408,8 +408,18 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         """Overidden error_norm of EmpiricalCovariance
         to handle complex data."""
 
-        return np.abs(super().error_norm(comp_cov, norm, scaling,
-                                         squared))
+        error = comp_cov - self.covariance_
+        if norm == 'frobenius':
+            squared_norm = np.sum(np.abs(error)**2)
+        elif norm == 'spectral':
+            squared_norm = np.amax(linalg.svdvals(error))**2
+        else:
+            raise NotImplementedError(
+                "Only spectral and frobenius norms are implemented"
+            )
+        if scaling:
+            squared_norm = squared_norm / error.shape[0]
+        return squared_norm if squared else np.sqrt(squared_norm)
 
 
 # -----------------------------------------------------------------------
-- 
2.43.0


From 4830557a5fead4ea160fc86e3afe3ab89b435b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:08 +0000
Subject: [PATCH 28/37] fix: feature array keeps its own copy of the first
 batch

---
 robuststats/estimation/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index da5d2e7..fbbe51b 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -108,7 +108,8 @@ class _FeatureArray():
             batch_size = len(d)
 
             if a is None:
-                self._array[i] = d
+                # own copy: the caller may reuse its array
+                self._array[i] = np.array(d)
             else:
                 shape = (self._size_preallocation, *(self._shape[i]))
                 while len(self) + len(d) > len(self._array[i]):
-- 
2.43.0


From 53095f2068c17e9e1307b1e84aadeb1e60a74973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:08 +0000
Subject: [PATCH 29/37] fix: each feature is estimated with its own copy of the
 estimator

---
 robuststats/estimation/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index fbbe51b..e6f7757 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -163,8 +163,7 @@ class _FeatureArray():
 def _feature_estimation(estimator):
     def wrapper(data, **kwargs):
         # estimation
-        f = deepcopy(estimator)
-        f = estimator.fit_transform(data, **kwargs)
+        f = deepcopy(estimator).fit_transform(data, **kwargs)
 
         # return a _FeatureArray
         if type(f) in [np.float64, np.complex128]:
-- 
2.43.0


From 54c13f6b18bc735b5135cf0d644c289909a556f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 30/37] fix: complex estimators score and measure distances of
 complex data

---
 robuststats/estimation/base.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index e6f7757..071a55f 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -19,6 +19,7 @@ from sklearn.utils.validation import check_array,\
 import warnings
 from ..models.mappings import covariancetoreal,\
             covariancetocomplex, arraytoreal, arraytocomplex
+from ..models.probability import complex_multivariate_normal
 from ..utils.checking import check_value, check_positive, check_type
 
 # -----------------------------------------------------------------------
@@ -370,9 +371,10 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         else:
             self.precision_ = None
 
-    def _validate_data(self, X):
+    def _validate_data(self, X, **kwargs):
         X_verified = arraytocomplex(
-         super(ComplexEmpiricalCovariance, self)._validate_data(arraytoreal(X))
+         super(ComplexEmpiricalCovariance, self)._validate_data(
+             arraytoreal(X), **kwargs)
         )
         return X_verified
 
@@ -403,6 +405,23 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
         return self
 
+    def score(self, X_test, y=None):
+        """Overidden score of EmpiricalCovariance to handle complex data:
+        mean log-likelihood of the complex circular Gaussian model."""
+
+        X_test = self._validate_data(X_test, reset=False)
+        model = complex_multivariate_normal(
+            mean=self.location_, cov=self.covariance_)
+        return np.mean(model.logpdf(X_test))
+
+    def mahalanobis(self, X):
+        """Overidden mahalanobis of EmpiricalCovariance to handle
+        complex data."""
+
+        X = self._validate_data(X, reset=False) - self.location_
+        return np.real(np.einsum('ij,jk,ik->i', X.conj(),
+                                 self.get_precision(), X))
+
     def error_norm(self, comp_cov, norm='frobenius', scaling=True,
                    squared=True):
         """Overidden error_norm of EmpiricalCovariance
-- 
2.43.0


From ca68d2512e46864f118d4ed3f74a308fab98dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:46 +0000
Subject: [PATCH 31/37] fix: Kronecker distance agrees with the manifold's own
 metric

---
 robuststats/models/manifolds.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 27dfcd3..4c999ff 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -480,6 +480,14 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                 np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
 
+    def dist(self, theta_1, theta_2):
+        d = super().dist(theta_1, theta_2)
+        # The trace term of the metric is the squared difference of the
+        # log-determinants along the geodesic.
+        t = la.slogdet(theta_2[1])[1] - la.slogdet(theta_1[1])[1]
+        return np.sqrt(
+            d**2 + (self._alpha - 1) * (self._a**2) * np.sum(t**2))
+
     def randvec(self, theta):
         u = super().randvec(theta)
         return (1/np.sqrt(self.inner(theta, u, u))) * u
-- 
2.43.0


From f541948019d6db281fa0dd1ab58afaa9604972b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 32/37] fix: random tangent vector of the trivial special
 Hermitian manifold

---
 robuststats/models/manifolds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 4c999ff..3159e87 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -294,6 +294,9 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         # Generate k matrices.
         k = self._k
         n = self._n
+        if n == 1:
+            # The tangent space is trivial.
+            return self.zerovec(x)
         if k == 1:
             u = rnd.randn(n, n)+1j*rnd.randn(n, n)
         else:
-- 
2.43.0


From 4584b35922abf6dbcd7d444a39ebb94a1e581c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:22 +0000
Subject: [PATCH 33/37] fix: Tyler's cost is differentiable at matrices with
 repeated eigenvalues

---
 robuststats/models/cost.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 63f99ce..e8977bb 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -12,7 +12,6 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from ..utils.backend import get_be_autograd, get_be_la_autograd
-from ..utils.linalg import invsqrtm
 import logging
 
 def Tyler_cost_real(X, Q, autograd=False):
@@ -47,9 +46,9 @@ def Tyler_cost_real(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    
-    q = be.einsum('ij,ji->i', temp.T, temp)
+    # no eigendecomposition of Q: its derivative is undefined at matrices
+    # with repeated eigenvalues
+    q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
     return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
 
 
@@ -86,6 +85,5 @@ def Tyler_cost_complex(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    q = be.einsum('ij,ji->i', be.conjugate(temp.T), temp)
+    q = be.einsum('ij,ji->i', be.conjugate(X), be_la.solve(Q, X.T))
     return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))
\ No newline at end of file
-- 
2.43.0


From 84e87b8331a07eb4c8ee64c67ac9f13292297cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:00 +0000
Subject: [PATCH 34/37] fix: complex natural-gradient Tyler estimates Tyler's
 complex shape matrix

---
 robuststats/estimation/covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index a728e32..55f1636 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -917,7 +917,9 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     int
         Always None. For compatibility purposes
     """
-    X_real = arraytoreal(X)
+    # Both rotations of the samples: the real problem is then invariant to
+    # multiplication by i and has the complex one's solution
+    X_real = np.concatenate([arraytoreal(X), arraytoreal(1j*X)])
     if init is not None:
         init = covariancetoreal(init)
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
-- 
2.43.0


From 255bafff0d03a63c4da17a80ee8a364acc785d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:02 +0000
Subject: [PATCH 35/37] fix: online estimator keeps its parameters under their
 names

get_params, repr, clone and set_params raised AttributeError.
---
 robuststats/online/estimation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index df7d5b0..78dd44f 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -19,21 +19,21 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                        estimatetocov=None,
                        cost=None, verbosity=False):
         super().__init__()
-        self._manifold = manifold
-        self._rgrad = rgrad
-        self.lrate_ = lrate
-        self._cost = cost
-        self._verbosity = verbosity
-        self._estimatetocov = estimatetocov
+        self.manifold = manifold
+        self.rgrad = rgrad
+        self.lrate = lrate
+        self.cost = cost
+        self.verbosity = verbosity
+        self.estimatetocov = estimatetocov
 
         self._iteration = 0
         self.estimate_ = None
 
     def _estimate_to_cov(self, estimate):
-        if self._estimatetocov is None:
+        if self.estimatetocov is None:
             return estimate
         else:
-            return self._estimatetocov(estimate)
+            return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
         self.estimate_ = estimate
@@ -42,9 +42,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-            return self.lrate_/(iteration+1)
+            return self.lrate/(iteration+1)
         else:
-            return self.lrate_
+            return self.lrate
 
     def update(self, X, lr_update):
 
@@ -55,7 +55,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         # TODO: constant step + geodesic between past two iterations
-        nabla = self._rgrad(X, self.estimate_)
+        nabla = self.rgrad(X, self.estimate_)
         t = -self._current_lr(lr_update, self._iteration)
         if isinstance(nabla, list):
             t_nabla = [t*x for x in nabla]
@@ -64,7 +64,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         else:
             t_nabla = t*nabla
 
-        estimate = self._manifold.retr(self.estimate_, t_nabla)
+        estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
         self._iteration += 1
         return self
@@ -81,16 +81,16 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         n_samples, n_features = X.shape
-        if self._verbosity:
+        if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
         for iteration in range(n_samples):
             self.update(X[iteration, :].reshape((1, n_features)), lr_update)
 
-            if self._verbosity:
+            if self.verbosity:
                 pbar_v.update()
-                if self._cost is not None:
-                    cost = self._cost(X, self.estimate_)
+                if self.cost is not None:
+                    cost = self.cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
         return self
-- 
2.43.0


From 8b2f692edc42e31703b868e09d587da46a5790cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 36/37] fix: Kronecker Student fit uses the metric of its
 current parameters

set_params (or attributes) left alpha and the manifold of the constructor.
---
 robuststats/estimation/structured.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 234c5d0..8366766 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -376,6 +376,11 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         else:
             self.location_ = X.mean(0)
 
+        # The metric follows the current parameters
+        self.alpha = (self.df+self.a*self.b)/(self.df+self.a*self.b+1)
+        self.manifold = KroneckerHermitianPositiveElliptical(
+            self.a, self.b, self.alpha)
+
         # Using pymanopt solver to obtain estimate
         A, B = _estimate_covariance_kronecker_t_gradient(
             X, self.df, self.a, self.b, self.manifold, self.location_,
-- 
2.43.0


From b7282d0296465bd35ea7f64b2dac590c806edb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:52 +0000
Subject: [PATCH 37/37] fix: Kronecker MM failed on integer samples and
 truncated their products

---
 robuststats/estimation/structured.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 8366766..f5bf8dd 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -64,6 +64,9 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     """
 
     n_samples, n_features = X.shape
+    # Neither the estimates nor the products below are integers
+    if not np.issubdtype(X.dtype, np.inexact):
+        X = X.astype(float)
     Y = X.T
 
     if a*b != n_features:
-- 
2.43.0

