From d559dfe5a9b47629abcd85239760def90aeddd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 01/55] fix: RBF kernel adds noise to the cross covariance of
 different sample sets

---
 src/lop/kernels/RBF_kern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5136842..d124991 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -116,7 +116,8 @@ class RBF_kern(KernelFunc):
         top = np.sum(diff*diff, axis=2)
 
         cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if cov.shape[0] == cov.shape[1] and (X[0] == Y[0]).all():
+        # only the covariance of a set of samples with itself has the noise term
+        if np.array_equal(X, Y):
             cov += np.eye(cov.shape[0])*self.sigma_noise
         return cov
 
-- 
2.43.0


From f40253f81fcdd1a0832dd3bbb8f8aeafceaffd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 02/55] fix: RBF kernel lengthscale gradient is twice the true
 derivative

---
 src/lop/kernels/RBF_kern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index d124991..9fd9296 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -146,7 +146,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
         # if N == N:
         #     dSigma_noise = np.eye(N)
         # else:
@@ -162,7 +162,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
 
         return np.array([dSigma, dl])
 
-- 
2.43.0


From cb26c3b33e3c132601dfe54ec0a18f4b420fd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 03/55] fix: periodic kernel parameter gradients are not the
 derivatives of the kernel

---
 src/lop/kernels/PeriodicKern.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lop/kernels/PeriodicKern.py b/src/lop/kernels/PeriodicKern.py
index 12b63c8..1246006 100644
--- a/src/lop/kernels/PeriodicKern.py
+++ b/src/lop/kernels/PeriodicKern.py
@@ -147,19 +147,16 @@ class PeriodicKern(KernelFunc):
 
         X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)
         Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)
-        diff = X_expanded - Y_expanded
-        top = np.sum(diff*diff, axis=2)
-
-        exp_x = np.exp(-top / (2 * self.l*self.l))
-
         diff = X_expanded - Y_expanded
         uv_norm = np.sum(np.abs(diff), axis=2)
         
+        sin_tmp = np.sin(np.pi*uv_norm / self.p)
         cos_tmp = np.cos(np.pi*uv_norm / self.p)
+        exp_x = np.exp(-2 * sin_tmp * sin_tmp / (self.l * self.l))
         
         dSigma = 2 * self.sigma * exp_x
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp*sin_tmp / (self.l*self.l*self.l)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * sin_tmp * \
             cos_tmp / (self.l*self.l * self.p*self.p)
 
         return dSigma, dl, dp
@@ -173,9 +170,9 @@ class PeriodicKern(KernelFunc):
 
         dSigma = 2 * self.sigma * exp_x
 
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp*sin_tmp / (self.l*self.l*self.l)
 
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * sin_tmp * \
             np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
 
         return np.array([dSigma, dl, dp])
-- 
2.43.0


From b0a572325bf65c5c8bf9106986bfa268f71754fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 04/55] fix: gradient of a product kernel's covariance has one
 matrix per parameter

---
 src/lop/kernels/KernelFunc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index d33cc05..1f2cb51 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -230,12 +230,15 @@ class DualKern(KernelFunc):
             a_grad = self.a.cov_gradient(X,Y)
             b_grad = self.b.cov_gradient(X,Y)
         elif self.operator == '*':
-            a_grad = self.a.cov_gradient(X,Y) * self.b.cov(X,Y)
-            b_grad = self.b.cov_gradient(X,Y) * self.a.cov(X,Y)
+            b_cov = self.b.cov(X,Y)
+            a_cov = self.a.cov(X,Y)
+            a_grad = tuple(grad * b_cov for grad in self.a.cov_gradient(X,Y))
+            b_grad = tuple(grad * a_cov for grad in self.b.cov_gradient(X,Y))
         else:
             raise NotImplementedError('DualKern does not have operator `'+self.operator+'` implemented')
 
-        return a_grad + b_grad
+        # one gradient matrix per parameter, in the order of get_param
+        return tuple(a_grad) + tuple(b_grad)
 
 
 
-- 
2.43.0


From 92e014ced5ea76608baa6eda54065cf07711bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 05/55] fix: combined kernels sample no hyperparameters

---
 src/lop/kernels/KernelFunc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index 1f2cb51..fa28961 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -165,6 +165,12 @@ class DualKern(KernelFunc):
     def get_param(self):
         return np.append(self.a.get_param(), self.b.get_param(), axis=0)
 
+    ## Performs random sampling using the same liklihood function used by the param
+    # liklihood function
+    # @return numpy array of independent samples.
+    def randomize_hyper(self):
+        return np.append(self.a.randomize_hyper(), self.b.randomize_hyper(), axis=0)
+
     ## param_likli
     # log liklihood of the parameter (prior)
     def param_likli(self):
-- 
2.43.0


From 99eddf48fd9dd03e950f8ffdcff037d02f5446e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:03 +0000
Subject: [PATCH 06/55] fix: zeroed RBF kernel value and gradients disagree
 with its covariance matrix

---
 src/lop/kernels/RBF_kern_zeroed.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 63ae3b7..0e72cd0 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -78,12 +78,20 @@ class RBF_kern_zeroed(RBF_kern):
 
         return cov - cov_zero
 
+    ## zero_pt_cov
+    # the noise free covariance of the samples to the zero point
+    # @return X to zero point (n1, 1), zero point to Y (1, n2)
+    def zero_pt_cov(self, X, Y):
+        cov_x = np.array([[super(RBF_kern_zeroed, self).__call__(x, self.zero_pt)] for x in X])
+        cov_y = np.array([[super(RBF_kern_zeroed, self).__call__(y, self.zero_pt) for y in Y]])
+
+        return cov_x, cov_y
+
     def zero_cov(self, X, Y):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x, cov_y = self.zero_pt_cov(X, Y)
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -108,8 +116,7 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x, cov_y = self.zero_pt_cov(X, Y)
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -118,8 +125,10 @@ class RBF_kern_zeroed(RBF_kern):
         y_sig, y_l = super().cov_gradient(self.zero_pt[np.newaxis,:], Y)
 
         # f(x)g'(x) + f'(x)g(x)
-        zero_sigma = x_sig * Y_expanded + X_expanded * y_sig
-        zero_l =     x_l * Y_expanded + X_expanded * y_l
+        sig_2 = self.sigma * self.sigma
+        zero_sigma = (x_sig * Y_expanded + X_expanded * y_sig) / sig_2 \
+                        - 2 * X_expanded * Y_expanded / (sig_2 * self.sigma)
+        zero_l =     (x_l * Y_expanded + X_expanded * y_l) / sig_2
 
         return dSigma-zero_sigma, dl-zero_l
 
@@ -133,7 +142,12 @@ class RBF_kern_zeroed(RBF_kern):
         grad_zero_v = super().gradient(v, self.zero_pt)
 
         # f(x)g'(x) + f'(x)g(x)
-        grad_zero = super()(u, self.zero_pt) * grad_zero_v +  grad_zero_u * super()(v, self.zero_pt)
+        cov_u = super().__call__(u, self.zero_pt)
+        cov_v = super().__call__(v, self.zero_pt)
+        sig_2 = self.sigma * self.sigma
+        grad_zero = (cov_u * grad_zero_v +  grad_zero_u * cov_v) / sig_2
+        # d/dsigma of the 1/sigma^2 scaling
+        grad_zero[0] -= 2 * cov_u * cov_v / (sig_2 * self.sigma)
 
         return grad - grad_zero
 
@@ -141,6 +155,6 @@ class RBF_kern_zeroed(RBF_kern):
         self.lazy_zero_pt_init(u)
         
         cov = super().__call__(u,v)
-        cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt)
+        cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt) / (self.sigma * self.sigma)
 
         return cov - cov_0
-- 
2.43.0


From 2fe904cfea0db4395d4ce8543da62d7290c52289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 07/55] fix: repeated ratings of the same sample overwrite each
 other in the likelihood and its derivatives

---
 src/lop/probits/AbsBoundProbit.py | 18 ++++++++----------
 src/lop/probits/OrdinalProbit.py  |  8 +++-----
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a6c2291..7b56713 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -282,12 +282,12 @@ class AbsBoundProbit(ProbitBase):
         #py = np.log(beta.pdf(y_sel, aa, bb))
         py = beta.logpdf(y_sel, aa, bb)
 
-        # setup the indexing
+        # setup the indexing (the same sample can be rated multiple times)
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        full_W[y[1],y[1]] = Wdiag
+        np.add.at(full_W, (y[1],y[1]), Wdiag)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y[1]] = dpy_df
+        np.add.at(full_dpy_df, y[1], dpy_df)
 
         return -full_W, full_dpy_df, np.sum(py)
 
@@ -307,10 +307,8 @@ class AbsBoundProbit(ProbitBase):
         aa, bb = self.get_alpha_beta(f)
 
         py = beta.logpdf(y_selected, aa, bb)
-        full_py = np.zeros(F.shape[0])
-        full_py[y[1]] = py
 
-        return np.sum(full_py)
+        return np.sum(py)
 
 
 
@@ -354,7 +352,7 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = Wdiag
+        np.add.at(dW, (y[1],y[1],y[1]), Wdiag)
 
         return dW
 
@@ -429,11 +427,11 @@ class AbsBoundProbit(ProbitBase):
 
         if self.optimize_v_only:
             dW_dHyper = np.zeros((1, len(F), len(F)))
-            dW_dHyper[0, y[1], y[1]] = dW_dv
+            np.add.at(dW_dHyper[0], (y[1], y[1]), dW_dv)
         else:
             dW_dHyper = np.zeros((2, len(F), len(F)))
-            dW_dHyper[1, y[1], y[1]] = dW_dv
-            dW_dHyper[0, y[1], y[1]] = dW_dSigma
+            np.add.at(dW_dHyper[1], (y[1], y[1]), dW_dv)
+            np.add.at(dW_dHyper[0], (y[1], y[1]), dW_dSigma)
 
         return -dW_dHyper
 
diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index c4c05b0..944f8de 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -199,15 +199,13 @@ class OrdinalProbit(ProbitBase):
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
                 d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
 
-        W = np.diagflat(-d2py_df2)
-
         # setup the indexing to reshape into full gradient of F
+        # (the same sample can be rated multiple times)
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        idx_grid = np.meshgrid(y_orig[1],y_orig[1])
-        full_W[tuple(idx_grid)] = W
+        np.add.at(full_W, (y_orig[1], y_orig[1]), -d2py_df2)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y_orig[1]] = dpy_df
+        np.add.at(full_dpy_df, y_orig[1], dpy_df)
 
         return full_W, full_dpy_df, np.sum(py)
 
-- 
2.43.0


From a95bb386ff02039f757f0fa3d67c0cfac3060b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 08/55] fix: last term of the preference probit's third
 derivative

---
 src/lop/probits/PreferenceProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index f7b69d5..5ea3739 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -218,7 +218,7 @@ class PreferenceProbit(ProbitBase):
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
 
         paren_pairs = np.where(np.logical_and(z < 0, np.isinf(pdf_cdf_ratio)), 0, \
-                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * std_norm_pdf(z))
+                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * pdf_cdf_ratio)
         paren_pairs *= y[:,0]*y[:,0]*y[:,0]
         paren_pairs *= -1 / (2 * np.sqrt(2) * self.sigma * self.sigma * self.sigma)
 
-- 
2.43.0


From 349fb087ea8a8f9abb0b3c89b57933288750b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 09/55] fix: derivatives of the bounded probit's W matrix (sign
 of dW/dF, dW/dv)

---
 src/lop/probits/AbsBoundProbit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 7b56713..ba41db7 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -354,7 +354,8 @@ class AbsBoundProbit(ProbitBase):
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
         np.add.at(dW, (y[1],y[1],y[1]), Wdiag)
 
-        return dW
+        # W is the negative of the second derivative
+        return -dW
 
     ## calc_W_dHyper
     # Calculate the derivative of the W matrix with respect to hyper parameters.
@@ -400,10 +401,10 @@ class AbsBoundProbit(ProbitBase):
         term2_a = -(v*f / (2*sqrt2 * sigma3)) * gauss_pdf
         term2_b = -mu*aa1 + bb1 - mu*bb1
 
-        term3 = (v / sigma2) * gauss_pdf2 * (aa1 + bb1)
+        term3 = -(v / sigma2) * gauss_pdf2 * (aa1 + bb1)
         
-        term4_a = ((v*v) / (2*sigma2)) * gauss_pdf2
-        term4_b = mu*aa1 + (1-mu)*bb2
+        term4_a = -((v*v) / (2*sigma2)) * gauss_pdf2
+        term4_b = mu*aa2 + (1-mu)*bb2
 
         dW_dv = term1 + term2_a*term2_b + term3 + term4_a*term4_b
 
-- 
2.43.0


From 5c88bca0e45f4249d7323e1049044374e712c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 10/55] fix: gradient of the bounded probit's hyperparameter
 prior differs from the prior

---
 src/lop/probits/AbsBoundProbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index ba41db7..310c8ad 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -202,8 +202,8 @@ class AbsBoundProbit(ProbitBase):
                 return np.array([0.0])
                 return np.array([d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
             else:
-                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta),
-                        d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
+                # flat prior on v (see param_likli)
+                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta), 0.0])
         else:
             return super().grad_param_likli()
 
-- 
2.43.0


From 3827fbd614a77e850bd64120342450607d027f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 11/55] fix: random hyperparameters are assigned to the wrong
 probits

---
 src/lop/models/PreferenceGP.py    | 7 +++++--
 src/lop/probits/AbsBoundProbit.py | 2 ++
 src/lop/probits/OrdinalProbit.py  | 8 +++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index eecdc90..96c50d0 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -483,11 +483,14 @@ class PreferenceGP(PreferenceModel):
     def randomize_hyper(self):
         probit_samples = np.array([])
         for i in range(len(self.probits)):
-            sample = self.probits[i].randomize_hyper()
-            probit_samples = np.append(probit_samples, sample, axis=0)
+            # only probits with training data are part of the hyperparameter vector
+            if self.y_train[i] is not None:
+                sample = self.probits[i].randomize_hyper()
+                probit_samples = np.append(probit_samples, sample, axis=0)
 
         if self.hyperparam_only_probit:
             self.set_hyper(probit_samples)
+            return
         
         cov_samples = self.cov_func.randomize_hyper()
 
diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 310c8ad..359777a 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -167,6 +167,8 @@ class AbsBoundProbit(ProbitBase):
     # liklihood function
     # @return numpy array of independent samples.
     def randomize_hyper(self):
+        if not self.optimize_parameters:
+            return super().randomize_hyper()
         if self.optimize_v_only:
             return np.array([np.random.gamma(self.v_k, self.v_theta)])
         else:
diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 944f8de..4ebabec 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -72,7 +72,13 @@ class OrdinalProbit(ProbitBase):
         else:
             b = self.b
         return np.array([self.sigma, b])
-    
+
+    ## Performs random sampling of the hyperparameters
+    # The ordinal probit has no prior to sample from, so this is the current hyperparameters.
+    # @return numpy array of samples, matching get_hyper
+    def randomize_hyper(self):
+        return self.get_hyper()
+
 
     ## set_b
     # Sets the bias hyperparameter
-- 
2.43.0


From d4e00d7c3083a5814be3a0453435de5f287f3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 12/55] fix: other_probits reroutes the labels of the standard
 types and never uses the given probits

---
 src/lop/models/PreferenceModel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1d55f98..28eb3ed 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -49,10 +49,12 @@ class PreferenceModel(Model):
         self.probits = [PreferenceProbit(sigma = 0.5), OrdinalProbit(), AbsBoundProbit()]
         self.probit_idxs = {'relative_discrete': 0, 'ordinal': 1, 'abs': 2}
 
-        i = 1
         for key in other_probits:
-            self.probit_idxs[key] = i
-            i += 1
+            if key in self.probit_idxs:
+                self.probits[self.probit_idxs[key]] = other_probits[key]
+            else:
+                self.probit_idxs[key] = len(self.probits)
+                self.probits.append(other_probits[key])
 
         self.y_train = [None] * len(self.probit_idxs)
         self.X_train = None
-- 
2.43.0


From c07dbe6a3205b38ed6112f35a746553810bc8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 13/55] fix: a rejected add leaves its samples in the model,
 accepted samples alias the caller's array

---
 src/lop/models/PreferenceModel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 28eb3ed..d5baa34 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -190,12 +190,13 @@ class PreferenceModel(Model):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
+        # the training samples are only updated once the labels are accepted
         if self.X_train is None:
-            self.X_train = X
+            new_X_train = np.array(X)
             len_X = 0
         else:
             len_X = len(self.X_train)
-            self.X_train = np.append(self.X_train, X, axis=0)
+            new_X_train = np.append(self.X_train, X, axis=0)
 
         if type == 'relative_discrete':
             if len_X > 0:
@@ -253,6 +254,8 @@ class PreferenceModel(Model):
 
             self.y_train[self.probit_idxs[type]] = (v, idxs)
 
+        self.X_train = new_X_train
+
         if self.pareto_pairs and len(self.X_train) > 1:
             pairs = []
             d_better = get_dk(1,0)
-- 
2.43.0


From c84e8a96244c446ad92377e61959907475d8d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 14/55] fix: explicitly indexed ratings alias the caller's
 arrays

---
 src/lop/models/PreferenceModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index d5baa34..670b5ca 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -224,7 +224,7 @@ class PreferenceModel(Model):
                 raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
 
             if self.y_train[self.probit_idxs[type]] is None:
-                self.y_train[self.probit_idxs[type]] = (new_y[:,0], new_y[:,1])
+                self.y_train[self.probit_idxs[type]] = (new_y[:,0].copy(), new_y[:,1].copy())
             else:
                 # restet index for matching to X_train
                 old_v = self.y_train[self.probit_idxs[type]][0]
@@ -235,7 +235,7 @@ class PreferenceModel(Model):
         elif type == 'abs':
             if isinstance(y, tuple):
                 v = y[0]
-                idxs = y[1]
+                idxs = np.array(y[1])
             elif isinstance(y, np.ndarray):
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
-- 
2.43.0


From df45cd775e4c7de1981047f83a4d17f06b16e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 15/55] fix: pareto pairs miss new samples that are dominated
 by earlier ones, crash on 1d samples

---
 src/lop/models/PreferenceModel.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 670b5ca..902b06b 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -260,10 +260,14 @@ class PreferenceModel(Model):
             pairs = []
             d_better = get_dk(1,0)
             # Go through each new sample and check if it pareto optimal to others
-            for i, x in enumerate(X):
-                dominate = np.all(x > self.X_train, axis=1)
-
-                cur_pairs = [(d_better, i+len_X, j) for j in range(len(dominate)) if dominate[j]]
+            all_X = self.X_train.reshape(len(self.X_train), -1)
+            for i in range(len_X, len(all_X)):
+                dominate = np.all(all_X[i] > all_X, axis=1)
+                # samples from before this call which are better than the new sample
+                dominated_by = np.all(all_X[:len_X] > all_X[i], axis=1)
+
+                cur_pairs = [(d_better, i, j) for j in range(len(dominate)) if dominate[j]]
+                cur_pairs += [(d_better, j, i) for j in range(len_X) if dominated_by[j]]
                 pairs += cur_pairs
 
             if self.y_train[self.probit_idxs['relative_discrete']] is None and len(pairs) > 0:
-- 
2.43.0


From bde7485d47a497687ab8a41166238ac9af81cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 16/55] fix: pruning unreferenced samples drops rated samples
 and misplaces the remaining ratings

---
 src/lop/models/PreferenceModel.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 902b06b..fd5f09d 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -113,15 +113,20 @@ class PreferenceModel(Model):
     # @post - X_train has removed indicies, all references in y_train have been
     #          decremented
     def remove_without_reference(self, remove_prior=True):
-        counts = np.zeros(self.X_train.shape[0])
+        counts = np.zeros(self.X_train.shape[0], dtype=int)
 
         # iterate through each type of training data
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     counts[pair[1]] += 1
                     counts[pair[2]] += 1
+            else:
+                for idx in y[1]:
+                    counts[idx] += 1
 
         # check which pts don't have any counts
         #idx_to_rm = [x for x in range(len(counts)) if counts[x] == 0]
@@ -140,16 +145,26 @@ class PreferenceModel(Model):
         # reduce indicies of y_train to match removed indicies
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     pair[1] -= counts[pair[1]]
                     pair[2] -= counts[pair[2]]
+            else:
+                self.y_train[self.probit_idxs[type]] = (y[0], y[1] - counts[y[1]])
 
 
-        if remove_prior:
-            # update the index if they have been removed
-            prior_idx = (self.prior_idx[0], self.prior_idx[1] - len(idx_to_rm))
-            self.prior_idx = prior_idx
+        if remove_prior and self.prior_idx is not None:
+            # update the indicies if samples before or in the prior have been removed
+            start, end = self.prior_idx
+            self.prior_idx = (start - len([x for x in idx_to_rm if x < start]),
+                                end - len([x for x in idx_to_rm if x < end]))
+
+        if len(self.X_train) == 0:
+            self.X_train = None
+            self.prior_idx = None
+        self.optimized = False
 
 
 
-- 
2.43.0


From 6479760b6c168bfe2a6b4665e98b6b204d328935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 17/55] fix: prediction with a singular covariance uses a
 quadratic form as the weights

---
 src/lop/models/PreferenceGP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 96c50d0..357179e 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -129,7 +129,7 @@ class PreferenceGP(PreferenceModel):
         except:
             try:
                 K_inv = np.linalg.pinv(K)
-                alpha = F.transpose() @ K_inv @ F
+                alpha = K_inv @ F
             except:
                 pdb.set_trace()
 
-- 
2.43.0


From 5676a95c1d27c363d47d7d98d38cd20e5110d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 18/55] fix: GP prior prediction ignores the mean function,
 training samples alias the caller's array

---
 src/lop/models/GP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a189b62..d28419b 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -69,7 +69,7 @@ class GP(Model):
         y = y - self.mean_func(X)
 
         if self.X_train is None:
-            self.X_train = X
+            self.X_train = np.array(X)
             self.y_train = y
             self.training_sigma = training_sigma
         else:
@@ -95,7 +95,7 @@ class GP(Model):
             sigma = np.diagonal(self.cov)
             # just in case do to numerical instability a negative variance shows up
             sigma = np.maximum(0, sigma)
-            return np.zeros(len(X)), sigma
+            return np.zeros(len(X)) + self.mean_func(X), sigma
 
         #### This function treats Y as the training data
         Y = self.X_train
-- 
2.43.0


From eee7ddda3c333d7afdf2190a931bdffcdd1939be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 19/55] fix: select reports too few points when the remaining
 points were set aside as not preferred

---
 src/lop/active_learning/ActiveLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 1d9cd6d..bcfacb6 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -99,7 +99,7 @@ class ActiveLearner:
             all_not_selected = (set(range(len(candidate_pts))) - prev_selection) - set(sel_pts)
             not_selected = []
 
-            while len(sel_pts) < num_alts and len(all_not_selected) > 0:
+            while len(sel_pts) < num_alts and (len(all_not_selected) > 0 or len(not_selected) > 0):
                 # weird case where points have been selected already but out of 'prefered points'
                 # take the first index of the list then.
                 if len(pref_not_sel) == 0 and len(not_selected) > 0:
-- 
2.43.0


From fb271c795cfd83c683913ab02f19cf2070c27e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 20/55] fix: select picks a pair when only one point is asked
 for or available

---
 src/lop/active_learning/ActiveLearner.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index bcfacb6..30b37ef 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -106,7 +106,8 @@ class ActiveLearner:
                     selected_idx = not_selected[0]
                     not_selected.pop(0) 
                 else:
-                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
+                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) \
+                            and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_pair = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
@@ -138,7 +139,8 @@ class ActiveLearner:
             while len(sel_pts) < num_alts:
                 # only select from the prefered points if they still exist
                 if len(pref_not_sel) > 0:
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 \
+                            and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         
                         if selected_idx[0] in pref_not_sel:
@@ -155,7 +157,8 @@ class ActiveLearner:
                     # ensure that there is at least some pts left to select from
                     if len(all_not_selected) == 0:
                         raise Exception("Not enough points for select to create a full set")
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 \
+                            and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         all_not_selected.remove(selected_idx[0])
                         all_not_selected.remove(selected_idx[1])
-- 
2.43.0


From 5cd68f59074fd6b3f31ad36e011345e04b86a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 21/55] fix: acquisition selection of a single first point
 fails with an IndexError

---
 src/lop/active_learning/AcquisitionSelection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 8ec26be..d5330fb 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -100,7 +100,7 @@ class AcquisitionSelection(AcquisitionBase):
             # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
             # But needs at least a pair in order to calculate properly.
             self.sel_metric = 0
-            return np.random.choice(indicies)[0]
+            return np.random.choice(indicies)
             #return np.argmax(mu)
 
         x_rep, Q_rep = self.get_representative_Q(candidate_pts)
-- 
2.43.0


From a3090dedcc0c7fe8bd6f372e17ec9543067f078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 22/55] fix: pair selection returns points outside of the
 indicies it was asked to select from

---
 src/lop/active_learning/AcquisitionSelection.py | 2 +-
 src/lop/active_learning/ActiveLearner.py        | 9 ++++++++-
 src/lop/active_learning/BayesInfoGain.py        | 4 ++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index d5330fb..350a721 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -231,6 +231,6 @@ class AcquisitionSelection(AcquisitionBase):
         # represents the alignment metric for each pair being selected as align_Q
         align_Q = E_align_q + E_align_q.T
         
-        pair = self.pick_pair_from_metric(align_Q, prev_selection)
+        pair = self.pick_pair_from_metric(align_Q, prev_selection, indicies)
         self.sel_metric = align_Q[pair[0], pair[1]]
         return pair
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 30b37ef..b0e4966 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -267,9 +267,16 @@ class ActiveLearner:
     # pick a particular pair from a matrix of info gain
     # @param info_gain - 2d matrix [Q,Q] each represents the info gain of picking
     #                   pair [i,j].
+    # @param prev_selection - the set of already selected points
+    # @param indicies - [opt] the indicies that can be picked (all by default)
     #
     # @return (i,j) pair to select
-    def pick_pair_from_metric(self, info_gain, prev_selection):
+    def pick_pair_from_metric(self, info_gain, prev_selection, indicies=None):
+        if indicies is not None:
+            not_allowed = list(set(range(info_gain.shape[0])) - set(indicies))
+            info_gain[not_allowed, :] = -np.inf
+            info_gain[:, not_allowed] = -np.inf
+
         # just a check to ensure the same points do not get selected twice.
         # Shouldn't happen, but in case it does... really makes sure.
         np.fill_diagonal(info_gain, -np.inf)
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 92fa0f7..d9cccee 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -178,7 +178,7 @@ class BayesInfoGain(ActiveLearner):
         p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
 
         if self.model.X_train is None:
-            idxs = np.random.choice(list(indicies), 2)
+            idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
         if debug:
@@ -257,7 +257,7 @@ class BayesInfoGain(ActiveLearner):
             print(info_gain)
 
 
-        idx_best = self.pick_pair_from_metric(info_gain, prev_selection)
+        idx_best = self.pick_pair_from_metric(info_gain, prev_selection, indicies)
         
 
         print('idx_best: ' + str(idx_best))
-- 
2.43.0


From 3a6a9551752c2ca53cf9feb762e6b08453fca443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 23/55] fix: bayes info gain with a linear model calls
 p_B_pref_linear with an extra argument

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index d9cccee..79a4b15 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -104,7 +104,7 @@ class BayesInfoGain(ActiveLearner):
                 probit_mat = self.model.probits[0].likelihood_all_pairs(mu)
 
                 # Get the probabilities of which candidate_pts is the best.
-                p_B = self.p_B_pref_linear(candidate_pts, mu, probit_mat)
+                p_B = self.p_B_pref_linear(candidate_pts, mu)
             self.p_B = p_B
             self.probit_mat = probit_mat
             self.first_call_greedy = False
-- 
2.43.0


From 7f055eff8d8eebfa709698d85302d4bf9d13d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 24/55] fix: mixed comparison checks for ties with the unscaled
 pairwise metric

---
 src/lop/active_learning/RateChooseLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index c280ec0..0d4ce51 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -173,7 +173,7 @@ class MixedComparision(RateChooseLearner):
         print('Absloute selected metric: ' + str(abs_metric))
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
-- 
2.43.0


From 0430588d1cf0a2f6f046771a9b88c7a340ea2cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 25/55] fix: mixed decision keeps using samples of an earlier
 call's candidate points

---
 src/lop/active_learning/MixedStrategy.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 344215d..b3694b5 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -287,10 +287,9 @@ class MixedDecision(MixedStrategyPeak3):
                     sel_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
                 self.state = 0
 
-
-
-
-
+            # the samples are only for these candidate points, later calls need new samples
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
 
         self.num_calls += 1
         # return the selected indicies from pairwise select
@@ -437,10 +436,9 @@ class MixedDecision2(MixedStrategyPeak3):
                     sel_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
                 self.state = 0
 
-
-
-
-
+            # the samples are only for these candidate points, later calls need new samples
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
 
         self.num_calls += 1
         # return the selected indicies from pairwise select
-- 
2.43.0


From 3ad04da9c259515f57063d49bffdee5834ba75ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 26/55] fix: alignment decision raises UnboundLocalError before
 its decision phase

---
 src/lop/active_learning/MixedTypeDecision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 4d77717..7709e14 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -70,7 +70,8 @@ class AlignmentDecision(RateChooseLearner):
         #abs_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
         select_pair = True
-        
+        # there are no scores before the decision metric is used
+        rating_score, pref_score = None, None
 
         if self.num_calls < self.calls_to_decision:
             if self.num_calls % 2 == 0:
-- 
2.43.0


From 95ad09bf8f7266d014963624d8a4cb1a5109dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 27/55] fix: alignment decision leaves the model fit to only
 its rating data

---
 src/lop/active_learning/MixedTypeDecision.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 7709e14..391a5c6 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -143,6 +143,8 @@ class AlignmentDecision(RateChooseLearner):
         ## Reset model and start evaluating samples
         self.model.y_train[0] = pref_data
         self.model.y_train[2] = rating_data
+        # currently fit to only the rating data
+        self.model.optimized = False
 
         ## Evaluate samples
         align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
-- 
2.43.0


From c05c57b1ad48ed32c707ae1c7a4fbce53c3e994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 28/55] fix: human choice probabilities are NaN for queries
 with far lower rewards than the best query

---
 src/lop/utilities/human_choice_model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index 7b86ed1..08c1c7f 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -41,13 +41,10 @@ from scipy import stats
 #
 # @return output probability distribution of human choice
 def p_human_choice(r, p=1.0):
-    r = r - np.max(r)
+    # the max of each query, otherwise queries far from the overall max have no probability at all
+    r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
-    if len(r.shape) > 1:
-        sum_e = np.sum(e,axis=-1)
-        return e / sum_e[:,np.newaxis]
-    else:
-        return e / np.sum(e)
+    return e / np.sum(e, axis=-1, keepdims=True)
 
     
 
-- 
2.43.0


From 8f1658d27e33632f123bc423bfba4ad4928901f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 29/55] fix: approximate cdfs divide by the variance instead of
 the standard deviation, fail on uncorrelated variables

---
 src/lop/utilities/probability_utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index 5ee8d68..be01a63 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -38,7 +38,7 @@ def calc_cdf(mu, cov, method='mvn'):
 
     elif method == 'independent':
         
-        return np.prod(spec.ndtr((0 - mu) / np.diagonal(cov)))
+        return np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
 
     elif method == 'switch':
@@ -46,7 +46,7 @@ def calc_cdf(mu, cov, method='mvn'):
         cov = np.copy(cov)
         mu = np.copy(mu)
         mod_cov = np.abs(np.copy(cov))
-        np.fill_diagonal(mod_cov, 0)
+        np.fill_diagonal(mod_cov, -1)
 
         while cov.shape[0] > 1:
             idx = np.unravel_index(np.argmax(mod_cov), cov.shape)
@@ -70,7 +70,7 @@ def calc_cdf(mu, cov, method='mvn'):
             mu = np.delete(mu, idx, 0)
 
         if cov.shape[0] == 1:
-            p *= spec.ndtr((0 - mu[0]) / cov[0,0])
+            p *= spec.ndtr((0 - mu[0]) / np.sqrt(cov[0,0]))
 
         return p
     
-- 
2.43.0


From cca365b592bc9b26bca40ba86fd777828f53a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 30/55] fix: generate_ranking_pairs returns nothing

---
 src/lop/utilities/preference_pairs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lop/utilities/preference_pairs.py b/src/lop/utilities/preference_pairs.py
index c70f7fb..406d122 100644
--- a/src/lop/utilities/preference_pairs.py
+++ b/src/lop/utilities/preference_pairs.py
@@ -112,5 +112,4 @@ def generate_ranking_pairs(X, real_f):
         for j, idx2 in enumerate(sorted_idx[i+1:]):
             pairs.append((get_dk(1,0), idx1, idx2))
 
-
-
+    return pairs
-- 
2.43.0


From 9ba5a09a37993ed922b3c5b80b80278440cd68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 31/55] fix: fake functions give a single reward vector a
 different value than the same vector in a batch

---
 src/lop/utilities/FakeFunction.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 610dc1c..2778eef 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -145,8 +145,7 @@ class FakeWeightedMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
         return np.max(rewards * self.w, axis=1)
@@ -172,8 +171,7 @@ class FakeWeightedMin(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.min(rewards * self.w)
         return np.min(rewards * self.w, axis=1)
@@ -199,13 +197,10 @@ class FakeSquaredMinMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
+            return rewards
         vals = rewards * self.w
-        mins = np.min(vals, axis=1)
-        return np.sqrt(np.max(vals, axis=1)) + mins*mins
+        mins = np.min(vals, axis=-1)
+        return np.sqrt(np.max(vals, axis=-1)) + mins*mins
 
     def __str__(self):
         return 'FakeSquaredMinMax: (w: ' + str(self.w) + ')'
@@ -262,7 +257,8 @@ class FakeMixtureGaussian(FakeFunction):
     def calc(self, rewards):
         
 
-        if isinstance(rewards, np.ndarray):
+        # a vector is multiple samples only for 1 dimensional rewards
+        if isinstance(rewards, np.ndarray) and len(rewards.shape) > (self.dim > 1):
             z = np.zeros(rewards.shape[0])
         else:
             z = 0
-- 
2.43.0


From 0a66b5a39fbe107556c6f9faaf60ea6fe33cdd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 32/55] fix: k fold split can leave a fold empty

---
 src/lop/utilities/training_utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/training_utility.py b/src/lop/utilities/training_utility.py
index 221f56f..4b6a1c9 100644
--- a/src/lop/utilities/training_utility.py
+++ b/src/lop/utilities/training_utility.py
@@ -42,7 +42,8 @@ def k_fold_x_y(X, y, k):
         k = int(N / 2.0)
         if k < 2:
             return None
-    set_max_size = math.ceil(N / k)
+    # the size of each split, as even as possible
+    set_max_size = [N // k + (1 if i < N % k else 0) for i in range(k)]
 
     splits = [[] for i in range(k)]
     conn = [set() for i in range(N)]
@@ -77,7 +78,7 @@ def k_fold_x_y(X, y, k):
 
         # try to add as many as possible while still allowing all k fold to even
         for shuf_idx in shuffled_idxs:
-            if len(splits[split_idx]) >= set_max_size:
+            if len(splits[split_idx]) >= set_max_size[split_idx]:
                 break
 
             if shuf_idx not in selected:
-- 
2.43.0


From 6abe047dbc2a27ff82810018a3614ac62cadc19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:27 +0000
Subject: [PATCH 33/55] fix: ordinal probit's second derivative misses the z
 factors

---
 src/lop/probits/OrdinalProbit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 4ebabec..fb4afd8 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -203,7 +203,10 @@ class OrdinalProbit(ProbitBase):
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
             else:
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
-                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
+                # z * pdf(z) of the upper and lower break points (0 at the infinite break points)
+                z_pdf_up = self.z_k(y[i], f[i]) * self.norm_pdf(y[i], f[i]) if y[i] != self.n_ordinals else 0.0
+                z_pdf_low = self.z_k(y[i]-1, f[i]) * self.norm_pdf(y[i]-1, f[i]) if y[i] != 1 else 0.0
+                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(z_pdf_up - z_pdf_low) / l[i])
 
         # setup the indexing to reshape into full gradient of F
         # (the same sample can be rated multiple times)
-- 
2.43.0


From b7e596a968de8f9ebcf7fe8a652f90de7688bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 34/55] fix: linear preference model diverges on bounded
 ratings

---
 src/lop/models/PreferenceLinear.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index 5f81114..128ea4d 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -85,7 +85,10 @@ class PreferenceLinear(PreferenceModel):
             W, dpy_dw, py = self.derivatives(self.X_train, self.y_train, w)
 
             gradient = dpy_dw
-            hess = -W
+            # bounded ratings are not log concave: flip any directions of positive curvature,
+            # otherwise the newton step goes towards the minimum of the likelihood.
+            eig_val, eig_vec = np.linalg.eigh(-W)
+            hess = -(eig_vec * np.abs(eig_val)) @ eig_vec.T
 
             w_new = self.newton_update(w, # input value to change
                                        gradient=gradient, 
@@ -94,11 +97,23 @@ class PreferenceLinear(PreferenceModel):
                                        lambda_type="binary", # sets the type of line search ("static", "binary", "iter")
                                        line_search_max_itr=5)
 
+            # shorten steps that overshoot the maximum
+            loss_w = self.loss_func(w)
+            loss_new = self.loss_func(w_new)
+            for i in range(20):
+                if loss_new >= loss_w:
+                    break
+                w_new = 0.5 * (w + w_new)
+                loss_new = self.loss_func(w_new)
+
             # normalize the weights
             #w_new = w_new / np.linalg.norm(w_new, ord=2)
 
             # measure error convergence
             w_err = np.linalg.norm(w_new - w, ord=2)
+            # separable comparisons have no finite maximum, stop once the likelihood is flat
+            if loss_new - loss_w < 1e-6:
+                w_err = 0
             
             w = w_new
             n_loops += 1
-- 
2.43.0


From 30013e2266f5271401cc840b70bcfac109b055eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 35/55] fix: linear preference model ignores its matrix
 inversion, fails on singular hessians

---
 src/lop/models/PreferenceLinear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index 128ea4d..03ea511 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -94,6 +94,7 @@ class PreferenceLinear(PreferenceModel):
                                        gradient=gradient, 
                                        hess=hess,
                                        loss_func = self.loss_func,
+                                       invert_function = self.mat_inv,
                                        lambda_type="binary", # sets the type of line search ("static", "binary", "iter")
                                        line_search_max_itr=5)
 
-- 
2.43.0


From 170d5be8ea9fb7c8ce89c70c3e65339fa4541886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 36/55] fix: newton update with a failed inversion steps down
 the gradient

---
 src/lop/models/PreferenceModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index fd5f09d..bca81f0 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -421,7 +421,7 @@ class PreferenceModel(Model):
         try:
             descent = gradient @ invert_function(hess)
         except:
-            descent = gradient
+            descent = -gradient
 
         if lambda_type == "binary":
             # search along the descent direction for the min point.
-- 
2.43.0


From dd463ac29f950daa842daa4e29762a5eea5074b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 37/55] fix: gp mode search diverges on bounded ratings, fails
 on infinite rewards

---
 src/lop/models/PreferenceGP.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 357179e..2da9d4e 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -244,6 +244,11 @@ class PreferenceGP(PreferenceModel):
 
             # Hessian:
             hess = -self.W - K_inv
+            # bounded ratings are not log concave: flip any directions of positive curvature,
+            # otherwise the newton step goes towards the minimum of the likelihood.
+            eig_val, eig_vec = np.linalg.eigh(hess)
+            if np.any(eig_val > 0):
+                hess = -(eig_vec * np.abs(eig_val)) @ eig_vec.T
 
             F_new = self.newton_update( F, # estimated training values
                                         gradient, # Gradient input to newton's method
@@ -254,6 +259,13 @@ class PreferenceGP(PreferenceModel):
                                         lambda_type="binary", # sets the type of line search or static to perform
                                         line_search_max_itr=3)
 
+            # shorten steps that overshoot the maximum
+            likli = self.likli_f(F, x_train, y_train, self.K, L)
+            for i in range(20):
+                if self.likli_f(F_new, x_train, y_train, self.K, L) >= likli:
+                    break
+                F_new = 0.5 * (F + F_new)
+
             # normalize F
             if self.normalize_gp:
                 if self.normalize_positive:
-- 
2.43.0


From b7198fbfa46e7d2be21a9896749f3cc9987961df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 38/55] fix: GP aliases the caller's list of noise values

---
 src/lop/models/GP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index d28419b..c5e0328 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -71,7 +71,7 @@ class GP(Model):
         if self.X_train is None:
             self.X_train = np.array(X)
             self.y_train = y
-            self.training_sigma = training_sigma
+            self.training_sigma = np.array(training_sigma)
         else:
             self.X_train = np.append(self.X_train, X, axis=0)
             self.y_train = np.append(self.y_train, y, axis=0)
-- 
2.43.0


From 4d0e06a8a9632fb9071a21892bf9cf34e4cb6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:59 +0000
Subject: [PATCH 39/55] fix: linear preference model's steps leave the region
 where bounded ratings are informative

---
 src/lop/models/PreferenceLinear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index 03ea511..952ba4e 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -98,6 +98,12 @@ class PreferenceLinear(PreferenceModel):
                                        lambda_type="binary", # sets the type of line search ("static", "binary", "iter")
                                        line_search_max_itr=5)
 
+            # the likelihood of bounded ratings is flat far away from the ratings,
+            # limit the change of the rewards to stay where it is not.
+            F_change = np.max(np.abs(self.X_train @ (w_new - w)))
+            if F_change > 2.0:
+                w_new = w + (2.0 / F_change) * (w_new - w)
+
             # shorten steps that overshoot the maximum
             loss_w = self.loss_func(w)
             loss_new = self.loss_func(w_new)
-- 
2.43.0


From 40354bbfc0c0653f08a49b6f931478b56b17a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:49 +0000
Subject: [PATCH 40/55] fix: generalised variance of a singular covariance is
 not NaN

---
 src/lop/active_learning/GV_UCBLearner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/GV_UCBLearner.py b/src/lop/active_learning/GV_UCBLearner.py
index 64227a5..8acddda 100644
--- a/src/lop/active_learning/GV_UCBLearner.py
+++ b/src/lop/active_learning/GV_UCBLearner.py
@@ -62,7 +62,8 @@ class GV_UCBLearner(UCBLearner):
 
         # calculate the Standardized general variance
         # The matrix covariance equivelant to the standard deviation
-        SGV = [np.linalg.det(cov[np.ix_(prev_selection+[idx], prev_selection+[idx])]) ** exp_v for idx in indicies]
+        # (rounding can make the determinant of a singular covariance slightly negative)
+        SGV = [max(np.linalg.det(cov[np.ix_(prev_selection+[idx], prev_selection+[idx])]), 0.0) ** exp_v for idx in indicies]
 
         selected_GV_UCB = mu[indicies] + self.alpha*np.array(SGV)
 
-- 
2.43.0


From b04a67c40a2cce78349c984bb1bd2a48c0390782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:59 +0000
Subject: [PATCH 41/55] fix: mutual information is NaN when a choice has no
 probability

---
 src/lop/active_learning/MutualInfoLearner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MutualInfoLearner.py b/src/lop/active_learning/MutualInfoLearner.py
index c9ff311..decb3f0 100644
--- a/src/lop/active_learning/MutualInfoLearner.py
+++ b/src/lop/active_learning/MutualInfoLearner.py
@@ -109,7 +109,9 @@ class MutualInfoLearner(ActiveLearner):
         sum_p_over_w = np.sum(p, axis=0)
 
         # Find the information gain using the sample equation (4) in [1]
-        info_gain = np.sum(p * np.log2(self.M * p / sum_p_over_w)) / self.M
+        # (choices which are never made, p=0, hold no information)
+        log_ratio = np.log2(self.M * p / sum_p_over_w, out=np.zeros(p.shape), where=p > 0)
+        info_gain = np.sum(p * log_ratio) / self.M
 
         return info_gain
         
-- 
2.43.0


From 90ae93fd0ac16ab6eb9ddca51ce6b7d8b45378e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:59 +0000
Subject: [PATCH 42/55] fix: bayes information of larger queries ignores which
 candidate is best

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 79a4b15..aae48a2 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -54,7 +54,7 @@ class BayesInfoGain(ActiveLearner):
                     if self.p_q_B_method == 'probit':
                         sub_probit = probit_mat[q_i, Q_subi]
                         sub_probit_w = np.where(q_i == B_i, np.fmax(sub_probit, 1-sub_probit), sub_probit)
-                        p_q_B[i, B_i] = np.prod(sub_probit)
+                        p_q_B[i, B_i] = np.prod(sub_probit_w)
                     elif self.p_q_B_method == '999': 
                         p_q_B[i, B_i] = np.prod(np.where(q_i == B_i, 0.999, sub_probit))
                     elif self.p_q_B_method == '99':
-- 
2.43.0


From 5135a215ee1f7d77b754bc7f179289e181354616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 43/55] fix: decision schedules divide by zero at a checkpoint
 without any benefit

---
 src/lop/active_learning/MixedStrategy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index b3694b5..a9ac79a 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -266,7 +266,8 @@ class MixedDecision(MixedStrategyPeak3):
             pair_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
             _ = self.abs_comp.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
-            ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
+            # np.divide as either metric can be exactly 0 (no data to compare the queries on)
+            ratio = max(np.divide(self.pairwise_l.sel_metric, self.abs_comp.sel_metric), np.divide(self.abs_comp.sel_metric, self.pairwise_l.sel_metric))
             print('ratio = ' + str(ratio))
             
             if ratio > 2.0:
@@ -415,7 +416,8 @@ class MixedDecision2(MixedStrategyPeak3):
             pair_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
             _ = self.abs_comp.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
-            ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
+            # np.divide as either metric can be exactly 0 (no data to compare the queries on)
+            ratio = max(np.divide(self.pairwise_l.sel_metric, self.abs_comp.sel_metric), np.divide(self.abs_comp.sel_metric, self.pairwise_l.sel_metric))
             print('ratio = ' + str(ratio))
             
             if ratio > 2.0:
-- 
2.43.0


From 35a1d93798124637d1bcb2a6337a2520be899772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 44/55] fix: user calibration stops where the accuracy
 saturates instead of at the requested accuracy

---
 src/lop/utilities/HumanChoiceUser2.py | 45 ++++++++++++++++-----------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/lop/utilities/HumanChoiceUser2.py b/src/lop/utilities/HumanChoiceUser2.py
index 50f53db..4a2587b 100644
--- a/src/lop/utilities/HumanChoiceUser2.py
+++ b/src/lop/utilities/HumanChoiceUser2.py
@@ -11,7 +11,7 @@ from copy import copy
 
 from lop.utilities import HumanChoiceUser
 from lop.probits import std_norm_cdf
-from scipy.optimize import minimize_scalar
+from scipy.optimize import brentq
 import scipy.stats as st
 import scipy.special as spec
 import itertools
@@ -25,18 +25,19 @@ class HumanChoiceUser2(HumanChoiceUser):
         super(HumanChoiceUser2, self).__init__(fake_f, beta, sigma, bot_range, top_range)
 
 
-    def obj(self, b, diffs, p):
+    def choice_accuracy(self, b, diffs):
         eb = np.exp(np.abs(diffs) * b)
         
         logs = eb / (1+eb)
         logs = np.where(np.isnan(logs), 1, logs)
         logs = np.where(logs < 0.50000001, np.nan, logs)
 
-        obj_sum = np.nanmean(logs)
+        return np.nanmean(logs)
 
-        return (obj_sum - p)**2
-    
-    def rate_obj(self, sigma, diffs, p):
+    def obj(self, b, diffs, p):
+        return (self.choice_accuracy(b, diffs) - p)**2
+
+    def rate_accuracy(self, sigma, diffs):
         diffs = np.abs(diffs)
         sig_scalar = 1.0 / (np.sqrt(2) * sigma)
 
@@ -44,13 +45,23 @@ class HumanChoiceUser2(HumanChoiceUser):
         F = spec.ndtr(diffs * sig_scalar)
 
         F = np.where(diffs == 0.0, np.nan, F)
-        avg = np.nanmean(F)
-
-        return (avg - p)**2
-
-
-
+        return np.nanmean(F)
 
+    def rate_obj(self, sigma, diffs, p):
+        return (self.rate_accuracy(sigma, diffs) - p)**2
+
+    ## tune
+    # Finds the parameter with the requested accuracy. The accuracy is monotonic in the parameter,
+    # but saturates over most of the bounds, where the squared error is flat and can not be minimized.
+    # @param err - the signed error of the accuracy as a function of the parameter
+    # @param low, high - the bounds of the parameter
+    #
+    # @return the parameter, or the closest bound if the accuracy can not be reached
+    def tune(self, err, low, high):
+        err_low, err_high = err(low), err(high)
+        if err_low * err_high < 0:
+            return brentq(err, low, high, xtol=1e-6)
+        return low if abs(err_low) < abs(err_high) else high
 
     def get_k_b(self, f):
         min_sigmoid = np.log(self.bot_range) - np.log(1 - self.bot_range)
@@ -109,21 +120,17 @@ class HumanChoiceUser2(HumanChoiceUser):
 
         ## rating tuning
         #print('p_sigma = ' + str(p_sigma))
-        res = minimize_scalar(self.rate_obj, bounds=[0.001, 5.0], args=(diffs, p_sigma), options={'xatol': 0.001})
-
-        self.sigma = res.x
-        #print('Rating tuning')
-        #print(res)
+        self.sigma = self.tune(lambda sigma: self.rate_accuracy(sigma, diffs) - p_sigma, 0.001, 5.0)
 
         ## Pairwise tuning
-        res = minimize_scalar(self.obj, bounds=[0.01, 200.0], args=(diffs, p), options={'xatol': 0.001})
+        beta = self.tune(lambda b: self.choice_accuracy(b, diffs) - p, 0.01, 200.0)
 
         f_list = [[self.fake_f(r_problem) for r_problem in r_env] for r_env in rewards]
         min_max = np.array([min([min([np.min(f1) for f1 in f2]) for f2 in f_list]),  \
                             max([max([np.max(f1) for f1 in f2]) for f2 in f_list])])            
 
         self.k, self.b = self.get_k_b(min_max)
-        self.beta = res.x
+        self.beta = beta
 
         
 
-- 
2.43.0


From fd5dc0e489c319b20fb266637f1766472e68ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 45/55] fix: user calibration uses uninitialised values when
 environments differ in their number of problems

---
 src/lop/utilities/HumanChoiceUser2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/utilities/HumanChoiceUser2.py b/src/lop/utilities/HumanChoiceUser2.py
index 4a2587b..489271b 100644
--- a/src/lop/utilities/HumanChoiceUser2.py
+++ b/src/lop/utilities/HumanChoiceUser2.py
@@ -94,7 +94,7 @@ class HumanChoiceUser2(HumanChoiceUser):
 
 
         # collapase to a single sampled matrix
-        F = np.empty((num_functions, len(rewards) * len(rewards[0]), min_path_problems))
+        F = np.empty((num_functions, sum([len(env) for env in rewards]), min_path_problems))
         for f_idx in range(num_functions):
             f_list = [[fake_fs[f_idx](r_problem) for r_problem in r_env] for r_env in rewards]
             min_max = np.array([min([min([np.min(f1) for f1 in f2]) for f2 in f_list]),  \
@@ -103,16 +103,16 @@ class HumanChoiceUser2(HumanChoiceUser):
             k,b = self.get_k_b(min_max)
 
             # through environments
+            idx = 0
             for i in range(len(rewards)):
                 # through planning problems
                 for j in range(len(rewards[i])):
-                    idx = i * len(rewards[0]) + j
-
                     samp_idx = np.random.choice(len(rewards[i][j]), min_path_problems, replace=False)
                     f = fake_fs[f_idx](rewards[i][j])
                     f = f * k + b
 
                     F[f_idx, idx] = f[samp_idx]
+                    idx += 1
 
         pairs = np.array(list(itertools.combinations(range(F.shape[2]), 2)), dtype=int)
         diffs = F[:,:, pairs[:,0]] - F[:,:,pairs[:,1]]
-- 
2.43.0


From 8890977ca77e6567fa8f231e383700dcc393f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 46/55] fix: unique set sampling truncates members that are not
 integers

---
 src/lop/utilities/sample_utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/sample_utility.py b/src/lop/utilities/sample_utility.py
index c0d0526..0ce07eb 100644
--- a/src/lop/utilities/sample_utility.py
+++ b/src/lop/utilities/sample_utility.py
@@ -56,5 +56,5 @@ def sample_unique_sets(s, num_sets, size_set):
         s_len = len(s)
 
     uniq_sets = sample_unique_sets_fast(s, num_sets, size_set)
-    return uniq_sets.astype(int)
+    return uniq_sets.astype(np.asarray(s).dtype)
     
\ No newline at end of file
-- 
2.43.0


From 8fa2c2d95c6e03fec86e019dfe700baa7c705c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:41 +0000
Subject: [PATCH 47/55] fix: hyperparameter search fails when there is no
 likelihood parameter to search

---
 src/lop/models/PreferenceGP.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 2da9d4e..89aec64 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -590,18 +590,12 @@ class PreferenceGP(PreferenceModel):
 
                 probit_grads.append(grad_theta-term2)
 
-        grad_hyper = None
+        grad_hyper = np.empty((0,))
         for probit_grad in probit_grads:
-            if grad_hyper is None:
-                grad_hyper = probit_grad
-            else:
-                grad_hyper = np.append(grad_hyper, probit_grad, axis=0)
+            grad_hyper = np.append(grad_hyper, probit_grad, axis=0)
         if self.hyperparam_only_probit:
             return grad_hyper
-        if grad_hyper is None:
-            grad_hyper = dL_cov_f
-        else:
-            grad_hyper = np.append(grad_hyper, dL_cov_f, axis=0)
+        grad_hyper = np.append(grad_hyper, dL_cov_f, axis=0)
 
         return grad_hyper
 
-- 
2.43.0


From 0650a705057ea256005d6c2c87b6d6d14a6679d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:41 +0000
Subject: [PATCH 48/55] fix: writing back the hyperparameters of an ordinal
 probit replaces its breakpoints

---
 src/lop/probits/OrdinalProbit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index fb4afd8..7de2f4a 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -63,7 +63,10 @@ class OrdinalProbit(ProbitBase):
     # @param hyper - an array or list with [sigma, b]
     def set_hyper(self, hyper):
         self.set_sigma(hyper[0])
-        self.set_b(hyper[1])
+        # the hyperparameters only hold the last breakpoint, so breakpoints which already have it are kept.
+        if not hasattr(self, 'b') or hasattr(hyper[1], '__len__') \
+                or len(self.b) != self.n_ordinals+1 or self.get_hyper()[1] != hyper[1]:
+            self.set_b(hyper[1])
     ## get_hyper
     # Gets a numpy array of hyperparameters for the probit
     def get_hyper(self):
-- 
2.43.0


From 760ea3ab4c7f2be7bf01eac67740c834e6223935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:30 +0000
Subject: [PATCH 49/55] fix: plotting one dimensional preferences uses the
 rewards of other samples or fails

---
 src/lop/models/PreferenceModel.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index bca81f0..dd2ba5e 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -508,19 +508,21 @@ class PreferenceModel(Model):
             y_train = self.y_train
         if X_train is None:
             X_train = self.X_train
-        if F is None and X_train is not None:
-            if hasattr(self, 'F'):
-                F = self.F
-            else:
-                F = self(X_train)
         if ax is None:
             ax = plt.gca()
 
         # Ensure there is points to plot
-        if self.X_train is not None:
-            if len(self.X_train.shape) > 1 and self.X_train.shape[1] > 2:
-                raise ValueError("plot_preference was given larger than 2 dimmension: X_train.shape="+str(self.X_train.shape))
-            
+        if X_train is not None:
+            if len(X_train.shape) > 1 and X_train.shape[1] > 2:
+                raise ValueError("plot_preference was given larger than 2 dimmension: X_train.shape="+str(X_train.shape))
+
+            one_dim = len(X_train.shape) == 1 or X_train.shape[1] == 1
+            # the rewards found by the last optimization may be those of other samples
+            if F is None and one_dim:
+                F = self(X_train)
+            if one_dim:
+                X_train = X_train.reshape(-1)
+
             pref_pairs = y_train[self.probit_idxs['relative_discrete']]
             if pref_pairs is not None:
 
-- 
2.43.0


From c11da0b2499b1c680f1ca7b660dc306ebd8e15ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:44 +0000
Subject: [PATCH 50/55] fix: rho alignment of large rewards overflows to NaN

---
 src/lop/active_learning/AcquisitionBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/AcquisitionBase.py b/src/lop/active_learning/AcquisitionBase.py
index 5dd8d20..9ee8e3c 100644
--- a/src/lop/active_learning/AcquisitionBase.py
+++ b/src/lop/active_learning/AcquisitionBase.py
@@ -131,7 +131,8 @@ class AcquisitionBase(ActiveLearner):
             return np.zeros((all_rep.shape[0], all_rep.shape[0]))
         
         if self.alignment_f == 'rho':
-            rho_R = np.exp(all_rep)
+            # subtract the largest reward of each sample, so large rewards do not overflow
+            rho_R = np.exp(all_rep - np.max(all_rep, axis=1, keepdims=True))
             rho_R_sum = np.sum(rho_R, axis=1)
             rho_R = rho_R / np.repeat(rho_R_sum[:,np.newaxis], all_rep.shape[1], axis=1)
 
-- 
2.43.0


From bb75c1d60fa56a976493b8f4d96c69513646c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:42 +0000
Subject: [PATCH 51/55] fix: likelihood of ordinal categories far above the
 reward is computed from the upper tail

---
 src/lop/probits/OrdinalProbit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 7de2f4a..faa966f 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -227,7 +227,12 @@ class OrdinalProbit(ProbitBase):
         if (y_modified[0] < 0).any():
             raise Exception("Can't pass likelihood with 0 rating (must all be positive ordinal values)")
         
-        return self.norm_cdf(y, F) - self.norm_cdf(y_modified, F)
+        l = self.norm_cdf(y, F) - self.norm_cdf(y_modified, F)
+
+        # the cdfs both round to 1 if both break points are far above the reward, so use the upper tail there.
+        z_up, z_low = self.z_k(y, F), self.z_k(y_modified, F)
+        l_tail = std_norm_cdf(-z_low) - np.where(np.isinf(z_up), 0.0, std_norm_cdf(-z_up))
+        return np.where(z_low > 0, l_tail, l)
 
 
     ## likelihood
-- 
2.43.0


From 407c2d4f76f21066a79ff98ba931a1760c012a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:42 +0000
Subject: [PATCH 52/55] fix: weighted min/max and gaussian mixture utilities
 evaluate batches of queries

---
 src/lop/utilities/FakeFunction.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 2778eef..65bb939 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -148,7 +148,7 @@ class FakeWeightedMax(FakeFunction):
             return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
-        return np.max(rewards * self.w, axis=1)
+        return np.max(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMax: (w: ' + str(self.w) + ')'
@@ -174,7 +174,7 @@ class FakeWeightedMin(FakeFunction):
             return rewards
         if len(rewards.shape) == 1:
             return np.min(rewards * self.w)
-        return np.min(rewards * self.w, axis=1)
+        return np.min(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMin: (w: ' + str(self.w) + ')'
@@ -258,14 +258,15 @@ class FakeMixtureGaussian(FakeFunction):
         
 
         # a vector is multiple samples only for 1 dimensional rewards
-        if isinstance(rewards, np.ndarray) and len(rewards.shape) > (self.dim > 1):
-            z = np.zeros(rewards.shape[0])
-        else:
-            z = 0
+        rewards = np.asarray(rewards)
+        has_axis = self.dim > 1 or (len(rewards.shape) > 1 and rewards.shape[-1] == 1)
+        shape = rewards.shape[:-1] if has_axis else rewards.shape
+        rewards = np.reshape(rewards, (-1, self.dim))
+        z = np.zeros(shape)
 
         for i in range(self.num_kerns):
             #z += norm.pdf(rewards, loc=self.means[i], scale=self.sigs[i])
-            z += multivariate_normal.pdf(rewards, mean=self.means[i], cov=self.covs[i])
+            z = z + np.reshape(multivariate_normal.pdf(rewards, mean=self.means[i], cov=self.covs[i]), shape)
 
         return z
 
-- 
2.43.0


From bef5ba84105edbc26f16d6d131de9b8e6570aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:14 +0000
Subject: [PATCH 53/55] fix: mixed comparison learners fail when asked for the
 passed over candidates

---
 src/lop/active_learning/RateChooseLearner.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index 0d4ce51..7b08c5a 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -162,7 +162,8 @@ class MixedComparision(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        abs_query = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_query, [])
         abs_metric = self.abs_comp.sel_metric
         
 
@@ -359,22 +360,24 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        abs_query = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_query, [])
         abs_metric = self.abs_comp.sel_metric
         
         print('Pairwise selected metric: ' + str(pair_metric))
         print('Absloute selected metric: ' + str(abs_metric))
         
 
-        pair_samples = all_Q[:, pair_idxs]
-        if len(pair_idxs) == 2:
+        pair_query = pair_idxs[0] if return_not_selected else pair_idxs
+        pair_samples = all_Q[:, pair_query]
+        if len(pair_query) == 2:
             eta2 = compute_effsize(pair_samples[:, 0], pair_samples[:, 1], paired=True, eftype='eta-square')
         else:
             raise NotImplementedError("Have not implemented effect size computation yet")
 
 
         # check if any selected pairs might be evaluating to the same value
-        if (candidate_pts[pair_idxs] == candidate_pts[pair_idxs[::-1]]).all(axis=0).any():
+        if (candidate_pts[pair_query] == candidate_pts[pair_query[::-1]]).all(axis=0).any():
             # there is at least one pair that is the same.
             # check if the estimated values are similar
 
-- 
2.43.0


From 3efd8e802d61bb0d3f567686c682b8e8ceecc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:14 +0000
Subject: [PATCH 54/55] fix: kernel gradient of the hyperparameter evidence has
 a wrong chain rule term

---
 src/lop/models/PreferenceGP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 89aec64..d1f5313 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -571,7 +571,8 @@ class PreferenceGP(PreferenceModel):
             # Equation 209
             termB_1 = 0.5 * np.trace(B_inv @ K @ dW_f, axis1=1, axis2=2)
 
-            dL_cov_f[i] = termA_1 - termA_2 + np.sum(termB_2 - termB_1)
+            # chain rule through the rewards, the determinant has a negative sign
+            dL_cov_f[i] = termA_1 - termA_2 - np.sum(termB_2 * termB_1)
 
 
         # Liklihood function parameters
-- 
2.43.0


From 91d64fbf7019fbda99c3b9157dc87a1f6bf5bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:31 +0000
Subject: [PATCH 55/55] fix: a refused set of prior points does not move the
 recorded prior range

---
 src/lop/models/PreferenceModel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index dd2ba5e..f5d6599 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -97,11 +97,10 @@ class PreferenceModel(Model):
             pts = pts
             num_pts = pts.shape[0]
 
-        if self.X_train is not None:
-            self.prior_idx = (self.X_train.shape[0], self.X_train.shape[0]+num_pts)
-        else:
-            self.prior_idx = (0, num_pts)
+        start = self.X_train.shape[0] if self.X_train is not None else 0
         self.add(pts, [], type='relative_discrete')
+        # only recorded once the prior points have been accepted
+        self.prior_idx = (start, start+num_pts)
         self.remove_without_reference()
 
 
-- 
2.43.0

