From 08cea0714b1fe263376eda37a3f07797381930b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 01/47] fix: third derivative of the preference probit uses the
 cubed pdf/cdf ratio

d3/dz3 ln Phi(z) = -r + z^2 r + 3 z r^2 + 2 r^3 with r = pdf/cdf; the last
term was 2 r^2 pdf, so calc_W_dF was not the derivative of calc_W.
---
 src/lop/probits/PreferenceProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index f7b69d5..5ea3739 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -218,7 +218,7 @@ class PreferenceProbit(ProbitBase):
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
 
         paren_pairs = np.where(np.logical_and(z < 0, np.isinf(pdf_cdf_ratio)), 0, \
-                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * std_norm_pdf(z))
+                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * pdf_cdf_ratio)
         paren_pairs *= y[:,0]*y[:,0]*y[:,0]
         paren_pairs *= -1 / (2 * np.sqrt(2) * self.sigma * self.sigma * self.sigma)
 
-- 
2.43.0


From d89dcc991d9deda24e56524c9b3f569f9e27f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 02/47] fix: AbsBoundProbit.calc_W_dF returns the derivative of
 W

W is minus the second derivative of the log likelihood, so its derivative is
minus the third derivative; several ratings of one point have to add up.
---
 src/lop/probits/AbsBoundProbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a6c2291..8169fce 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -354,9 +354,9 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = Wdiag
+        np.add.at(dW, (y[1],y[1],y[1]), Wdiag)
 
-        return dW
+        return -dW
 
     ## calc_W_dHyper
     # Calculate the derivative of the W matrix with respect to hyper parameters.
-- 
2.43.0


From 06fc062d8a15c94e577183a3c5fe951565f634d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 03/47] fix: AbsBoundProbit.calc_W_dHyper is the derivative of
 W with respect to v

The last two terms had the wrong sign and the last one used polygamma(1, aa)
in place of polygamma(2, aa); several ratings of one point have to add up.
---
 src/lop/probits/AbsBoundProbit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 8169fce..fee3887 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -402,10 +402,10 @@ class AbsBoundProbit(ProbitBase):
         term2_a = -(v*f / (2*sqrt2 * sigma3)) * gauss_pdf
         term2_b = -mu*aa1 + bb1 - mu*bb1
 
-        term3 = (v / sigma2) * gauss_pdf2 * (aa1 + bb1)
+        term3 = -(v / sigma2) * gauss_pdf2 * (aa1 + bb1)
         
-        term4_a = ((v*v) / (2*sigma2)) * gauss_pdf2
-        term4_b = mu*aa1 + (1-mu)*bb2
+        term4_a = -((v*v) / (2*sigma2)) * gauss_pdf2
+        term4_b = mu*aa2 + (1-mu)*bb2
 
         dW_dv = term1 + term2_a*term2_b + term3 + term4_a*term4_b
 
@@ -429,11 +429,11 @@ class AbsBoundProbit(ProbitBase):
 
         if self.optimize_v_only:
             dW_dHyper = np.zeros((1, len(F), len(F)))
-            dW_dHyper[0, y[1], y[1]] = dW_dv
+            np.add.at(dW_dHyper, (0, y[1], y[1]), dW_dv)
         else:
             dW_dHyper = np.zeros((2, len(F), len(F)))
-            dW_dHyper[1, y[1], y[1]] = dW_dv
-            dW_dHyper[0, y[1], y[1]] = dW_dSigma
+            np.add.at(dW_dHyper, (1, y[1], y[1]), dW_dv)
+            np.add.at(dW_dHyper, (0, y[1], y[1]), dW_dSigma)
 
         return -dW_dHyper
 
-- 
2.43.0


From 72394f3201e3f67b28c7fbbebed254947cb71c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 04/47] fix: AbsBoundProbit counts every rating when a point is
 rated more than once

The gradient, W and log likelihood were assigned by index, so only the last
rating of a point counted there while py summed all of them.
---
 src/lop/probits/AbsBoundProbit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index fee3887..64364c3 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -284,10 +284,10 @@ class AbsBoundProbit(ProbitBase):
 
         # setup the indexing
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        full_W[y[1],y[1]] = Wdiag
+        np.add.at(full_W, (y[1],y[1]), Wdiag)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y[1]] = dpy_df
+        np.add.at(full_dpy_df, y[1], dpy_df)
 
         return -full_W, full_dpy_df, np.sum(py)
 
@@ -307,10 +307,8 @@ class AbsBoundProbit(ProbitBase):
         aa, bb = self.get_alpha_beta(f)
 
         py = beta.logpdf(y_selected, aa, bb)
-        full_py = np.zeros(F.shape[0])
-        full_py[y[1]] = py
 
-        return np.sum(full_py)
+        return np.sum(py)
 
 
 
-- 
2.43.0


From dde7fcfbe208eeddc47b30a9f238fab4acfab74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 05/47] fix: second derivative of the ordinal probit

d2/df2 ln l = -(d ln l)^2 - (z_y pdf(z_y) - z_{y-1} pdf(z_{y-1})) / (sigma^2 l);
the factors z were missing.
---
 src/lop/probits/OrdinalProbit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index c4c05b0..1887cc8 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -139,6 +139,13 @@ class OrdinalProbit(ProbitBase):
                 out = std_norm_pdf(z)
         return out
 
+    ## z_norm_pdf
+    # z * pdf(z) for a single rating, which goes to 0 at the infinite outer breakpoints
+    def z_norm_pdf(self, y, f):
+        if y == 0 or y == self.n_ordinals:
+            return 0
+        return self.z_k(y, f) * self.norm_pdf(y, f)
+
     def norm_cdf(self, y, F, var_x=0.0):
         if isinstance(y, tuple):
             f = F[y[1]]
@@ -197,7 +204,7 @@ class OrdinalProbit(ProbitBase):
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
             else:
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
-                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
+                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.z_norm_pdf(y[i], f[i]) - self.z_norm_pdf(y[i]-1, f[i])) / l[i])
 
         W = np.diagflat(-d2py_df2)
 
-- 
2.43.0


From 46ea4d624cfea95ba5197a646be0eb1e3c8f61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 06/47] fix: OrdinalProbit counts every rating when a point is
 rated more than once

The gradient and W were assigned by index, so only the last rating of a point
counted there while the likelihood used all of them.
---
 src/lop/probits/OrdinalProbit.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 1887cc8..96a89bf 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -206,15 +206,12 @@ class OrdinalProbit(ProbitBase):
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
                 d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.z_norm_pdf(y[i], f[i]) - self.z_norm_pdf(y[i]-1, f[i])) / l[i])
 
-        W = np.diagflat(-d2py_df2)
-
         # setup the indexing to reshape into full gradient of F
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        idx_grid = np.meshgrid(y_orig[1],y_orig[1])
-        full_W[tuple(idx_grid)] = W
+        np.add.at(full_W, (y_orig[1], y_orig[1]), -d2py_df2)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y_orig[1]] = dpy_df
+        np.add.at(full_dpy_df, y_orig[1], dpy_df)
 
         return full_W, full_dpy_df, np.sum(py)
 
-- 
2.43.0


From 20b2a59396715e67a90742b0ba77df0e04dc46f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 07/47] fix: gradients of the periodic kernel

The kernel is sigma^2 exp(-2 sin^2(pi u/p)/l^2): the l and p derivatives had the
wrong form, and cov_gradient used the exponent of the RBF kernel.
---
 src/lop/kernels/PeriodicKern.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/lop/kernels/PeriodicKern.py b/src/lop/kernels/PeriodicKern.py
index 12b63c8..bad6a07 100644
--- a/src/lop/kernels/PeriodicKern.py
+++ b/src/lop/kernels/PeriodicKern.py
@@ -147,20 +147,17 @@ class PeriodicKern(KernelFunc):
 
         X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)
         Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)
-        diff = X_expanded - Y_expanded
-        top = np.sum(diff*diff, axis=2)
-
-        exp_x = np.exp(-top / (2 * self.l*self.l))
-
         diff = X_expanded - Y_expanded
         uv_norm = np.sum(np.abs(diff), axis=2)
         
+        sin_tmp = np.sin(np.pi*uv_norm / self.p)
         cos_tmp = np.cos(np.pi*uv_norm / self.p)
+        exp_x = np.exp(-2 * sin_tmp * sin_tmp / (self.l*self.l))
         
         dSigma = 2 * self.sigma * exp_x
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
-            cos_tmp / (self.l*self.l * self.p*self.p)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+            sin_tmp * cos_tmp / (self.l*self.l * self.p*self.p)
 
         return dSigma, dl, dp
 
@@ -173,9 +170,9 @@ class PeriodicKern(KernelFunc):
 
         dSigma = 2 * self.sigma * exp_x
 
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
 
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * sin_tmp * \
             np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
 
         return np.array([dSigma, dl, dp])
-- 
2.43.0


From 1504a0a33e7c374af82a62a4b393d4eda341dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 08/47] fix: DualKern.cov_gradient of a product of kernels

The kernels return a tuple of matrices, so multiplying it by the covariance of
the other kernel raised a TypeError.
---
 src/lop/kernels/KernelFunc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index d33cc05..e0e47cd 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -230,8 +230,10 @@ class DualKern(KernelFunc):
             a_grad = self.a.cov_gradient(X,Y)
             b_grad = self.b.cov_gradient(X,Y)
         elif self.operator == '*':
-            a_grad = self.a.cov_gradient(X,Y) * self.b.cov(X,Y)
-            b_grad = self.b.cov_gradient(X,Y) * self.a.cov(X,Y)
+            a_cov = self.a.cov(X,Y)
+            b_cov = self.b.cov(X,Y)
+            a_grad = tuple(grad * b_cov for grad in self.a.cov_gradient(X,Y))
+            b_grad = tuple(grad * a_cov for grad in self.b.cov_gradient(X,Y))
         else:
             raise NotImplementedError('DualKern does not have operator `'+self.operator+'` implemented')
 
-- 
2.43.0


From 47d7883f92f04f867f53b370ebde2284a4ea564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 09/47] fix: DualKern samples the hyperparameters of both
 kernels

It inherited randomize_hyper from the base class and returned no samples, so
randomising a model with a composed kernel failed in set_param.
---
 src/lop/kernels/KernelFunc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index e0e47cd..01a3d06 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -165,6 +165,11 @@ class DualKern(KernelFunc):
     def get_param(self):
         return np.append(self.a.get_param(), self.b.get_param(), axis=0)
 
+    ## Performs random sampling of the parameters of both kernels
+    # @return numpy array of independent samples.
+    def randomize_hyper(self):
+        return np.append(self.a.randomize_hyper(), self.b.randomize_hyper(), axis=0)
+
     ## param_likli
     # log liklihood of the parameter (prior)
     def param_likli(self):
-- 
2.43.0


From 318559aa7ee6db00533abcb689a4be277f95be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 10/47] fix: pointwise value and gradients of the zeroed RBF
 kernel

cov() subtracts k(x,0) k(y,0) / sigma^2, but __call__, gradient and cov_gradient
left out the division (and its derivative), and gradient raised a TypeError
because it called super()(...).
---
 src/lop/kernels/RBF_kern_zeroed.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 63ae3b7..807db27 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -117,9 +117,12 @@ class RBF_kern_zeroed(RBF_kern):
         x_sig, x_l = super().cov_gradient(X, self.zero_pt[np.newaxis,:])
         y_sig, y_l = super().cov_gradient(self.zero_pt[np.newaxis,:], Y)
 
-        # f(x)g'(x) + f'(x)g(x)
-        zero_sigma = x_sig * Y_expanded + X_expanded * y_sig
-        zero_l =     x_l * Y_expanded + X_expanded * y_l
+        sigma2 = self.sigma * self.sigma
+
+        # (f(x)g'(x) + f'(x)g(x)) / sigma^2, and the derivative of 1 / sigma^2
+        zero_sigma = (x_sig * Y_expanded + X_expanded * y_sig) / sigma2 - \
+                    2 * X_expanded * Y_expanded / (sigma2 * self.sigma)
+        zero_l =     (x_l * Y_expanded + X_expanded * y_l) / sigma2
 
         return dSigma-zero_sigma, dl-zero_l
 
@@ -132,8 +135,13 @@ class RBF_kern_zeroed(RBF_kern):
         grad_zero_u = super().gradient(u, self.zero_pt)
         grad_zero_v = super().gradient(v, self.zero_pt)
 
-        # f(x)g'(x) + f'(x)g(x)
-        grad_zero = super()(u, self.zero_pt) * grad_zero_v +  grad_zero_u * super()(v, self.zero_pt)
+        cov_u = super().__call__(u, self.zero_pt)
+        cov_v = super().__call__(v, self.zero_pt)
+        sigma2 = self.sigma * self.sigma
+
+        # (f(x)g'(x) + f'(x)g(x)) / sigma^2, and the derivative of 1 / sigma^2
+        grad_zero = (cov_u * grad_zero_v +  grad_zero_u * cov_v) / sigma2
+        grad_zero[0] -= 2 * cov_u * cov_v / (sigma2 * self.sigma)
 
         return grad - grad_zero
 
@@ -141,6 +149,6 @@ class RBF_kern_zeroed(RBF_kern):
         self.lazy_zero_pt_init(u)
         
         cov = super().__call__(u,v)
-        cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt)
+        cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt) / (self.sigma * self.sigma)
 
         return cov - cov_0
-- 
2.43.0


From 7b34403e99bcfbf4a637b000186ca9bc5f571472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 11/47] fix: the zeroed RBF kernel takes no noise into the zero
 point terms

With a single sample equal to the zero point, cov(X, zero_pt) added the sample
noise, so the covariance of the zero point with itself came out wrong.
---
 src/lop/kernels/RBF_kern_zeroed.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 807db27..8a1b290 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -78,12 +78,24 @@ class RBF_kern_zeroed(RBF_kern):
 
         return cov - cov_zero
 
+    ## cov_to_zero
+    # covariance of each sample with the zero point, without any noise
+    # @param X - samples (n1,k) numpy array where n is the number of samples,
+    #
+    # @return (n1,) numpy array
+    def cov_to_zero(self, X):
+        if len(X.shape) == 1:
+            X = X[:,np.newaxis]
+
+        diff = X - self.zero_pt
+        return self.sigma * self.sigma * np.exp(-np.sum(diff*diff, axis=1) / (2 * self.l*self.l))
+
     def zero_cov(self, X, Y):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = self.cov_to_zero(X)[:,np.newaxis]
+        cov_y = self.cov_to_zero(Y)[np.newaxis,:]
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -108,8 +120,8 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = self.cov_to_zero(X)[:,np.newaxis]
+        cov_y = self.cov_to_zero(Y)[np.newaxis,:]
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
-- 
2.43.0


From 76de35d6b63d610865c2698b6f30a3ef02df005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 12/47] fix: RBF_kern.cov adds noise only between identical
 sample sets

Noise was put on the diagonal whenever the number of samples matched and the
first rows were equal, even if the other rows were different points.
---
 src/lop/kernels/RBF_kern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5136842..91ae728 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -116,7 +116,7 @@ class RBF_kern(KernelFunc):
         top = np.sum(diff*diff, axis=2)
 
         cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if cov.shape[0] == cov.shape[1] and (X[0] == Y[0]).all():
+        if X.shape == Y.shape and (X == Y).all():
             cov += np.eye(cov.shape[0])*self.sigma_noise
         return cov
 
-- 
2.43.0


From fc4ae627d31b2f3acdb97fe2482cc5230f283a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 13/47] fix: OrdinalProbit.log_likelihood does not underflow

The base class takes the log of the product of all likelihoods, which is -inf
after a few hundred ratings while derivatives() reports the finite sum of logs.
---
 src/lop/probits/OrdinalProbit.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 96a89bf..5bed431 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -224,6 +224,16 @@ class OrdinalProbit(ProbitBase):
         return self.norm_cdf(y, F) - self.norm_cdf(y_modified, F)
 
 
+    ## log_likelihood
+    # Returns the log liklihood function for the given probit
+    # Sums the logs, as the product of many likelihoods goes to 0.
+    # @param y - the given set of labels for the probit
+    # @param F - the input data samples
+    #
+    # @return log P(y|F)
+    def log_likelihood(self, y, F):
+        return np.sum(np.log(self.likelihood_each(y, F)))
+
     ## likelihood
     # Returns the liklihood function for the given probit
     # @param y - the given set of labels for the probit
-- 
2.43.0


From 407175444465921e8fdf5f38027b026955deaa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 14/47] fix: PreferenceProbit.calc_W_dHyper without learned
 parameters is an empty (0,N,N) stack

---
 src/lop/probits/PreferenceProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index 5ea3739..9d3ae4d 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -241,7 +241,7 @@ class PreferenceProbit(ProbitBase):
     # @reutrn 2d matrix
     def calc_W_dHyper(self, y, F):
         if not self.optimize_parameters:
-            return np.empty((0,))
+            return np.empty((0, len(F), len(F)))
 
         z = self.z_k(y, F)
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
-- 
2.43.0


From b46068199adbb28473b565287e41540d595c8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 15/47] fix: AbsBoundProbit samples no hyperparameters when it
 does not learn them

---
 src/lop/probits/AbsBoundProbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 64364c3..f040351 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -167,6 +167,8 @@ class AbsBoundProbit(ProbitBase):
     # liklihood function
     # @return numpy array of independent samples.
     def randomize_hyper(self):
+        if not self.optimize_parameters:
+            return super().randomize_hyper()
         if self.optimize_v_only:
             return np.array([np.random.gamma(self.v_k, self.v_theta)])
         else:
-- 
2.43.0


From d3b02e4a6c6787523b52cd6b772cbf5e785b5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 16/47] fix: OrdinalProbit.randomize_hyper lines up with its
 hyperparameters

---
 src/lop/probits/OrdinalProbit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 5bed431..7031db9 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -74,6 +74,12 @@ class OrdinalProbit(ProbitBase):
         return np.array([self.sigma, b])
     
 
+    ## randomize_hyper
+    # The ordinal probit has no prior on its hyperparameters, so they keep their values
+    # @return numpy array of hyperparameters, lined up with get_hyper
+    def randomize_hyper(self):
+        return self.get_hyper()
+
     ## set_b
     # Sets the bias hyperparameter
     # @param b - should be a scalar or vector of breakpoints
-- 
2.43.0


From b95814f4dfe7baf67930ba448eb2a264612c3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 17/47] fix: PreferenceGP.randomize_hyper only samples the
 probits that set_hyper sets

---
 src/lop/models/PreferenceGP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index eecdc90..d3d9b5d 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -483,8 +483,9 @@ class PreferenceGP(PreferenceModel):
     def randomize_hyper(self):
         probit_samples = np.array([])
         for i in range(len(self.probits)):
-            sample = self.probits[i].randomize_hyper()
-            probit_samples = np.append(probit_samples, sample, axis=0)
+            if self.y_train[i] is not None:
+                sample = self.probits[i].randomize_hyper()
+                probit_samples = np.append(probit_samples, sample, axis=0)
 
         if self.hyperparam_only_probit:
             self.set_hyper(probit_samples)
-- 
2.43.0


From f5e2583664c37d4f93ba5480ca4d36941f97f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 18/47] fix: lengthscale gradient of the RBF kernel

---
 src/lop/kernels/RBF_kern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 91ae728..7f0f73e 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -145,7 +145,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
         # if N == N:
         #     dSigma_noise = np.eye(N)
         # else:
@@ -161,7 +161,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
 
         return np.array([dSigma, dl])
 
-- 
2.43.0


From b6c56fa3fac9770e9a33b1d5d3d7b747b3122005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:39 +0000
Subject: [PATCH 19/47] fix: GP prior prediction includes the mean function

---
 src/lop/models/GP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a189b62..10f02ef 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -95,7 +95,7 @@ class GP(Model):
             sigma = np.diagonal(self.cov)
             # just in case do to numerical instability a negative variance shows up
             sigma = np.maximum(0, sigma)
-            return np.zeros(len(X)), sigma
+            return np.zeros(len(X)) + self.mean_func(X), sigma
 
         #### This function treats Y as the training data
         Y = self.X_train
-- 
2.43.0


From 23fcd3759e0abb13ef891b2e2b210d7931877af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:07 +0000
Subject: [PATCH 20/47] fix: PreferenceGP.predict fallback weights are K_inv @
 F

---
 src/lop/models/PreferenceGP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index d3d9b5d..5906b64 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -129,7 +129,7 @@ class PreferenceGP(PreferenceModel):
         except:
             try:
                 K_inv = np.linalg.pinv(K)
-                alpha = F.transpose() @ K_inv @ F
+                alpha = K_inv @ F
             except:
                 pdb.set_trace()
 
-- 
2.43.0


From 9992daa20fdbed8085fb53d34dbbc493651725d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 21/47] fix: PreferenceLinear.derivatives uses the labels it
 was given

---
 src/lop/models/PreferenceLinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index 5f81114..04032bc 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -127,7 +127,7 @@ class PreferenceLinear(PreferenceModel):
         grad_ll = np.zeros(len(F))
         log_likelihood = 0
         for j, probit in enumerate(self.probits):
-            if self.y_train[j] is not None:
+            if y[j] is not None:
                 W_local, dpy_df_local, py_local = probit.derivatives(y[j], F)
 
                 W += W_local
-- 
2.43.0


From be28fde1ef417f15bccc7ba133d3cb01e45cafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 22/47] fix: AbsBoundProbit.grad_param_likli is the gradient of
 the prior it reports

---
 src/lop/probits/AbsBoundProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index f040351..74ad6e3 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -205,7 +205,7 @@ class AbsBoundProbit(ProbitBase):
                 return np.array([d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
             else:
                 return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta),
-                        d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
+                        0.0])
         else:
             return super().grad_param_likli()
 
-- 
2.43.0


From c357def73b2a5d5de7e1375c0980e28793c457be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 23/47] fix: p_human_choice subtracts the maximum of each row,
 so rows far below the global maximum are not 0/0

---
 src/lop/utilities/human_choice_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index 7b86ed1..3de1dd3 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -41,7 +41,7 @@ from scipy import stats
 #
 # @return output probability distribution of human choice
 def p_human_choice(r, p=1.0):
-    r = r - np.max(r)
+    r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
     if len(r.shape) > 1:
         sum_e = np.sum(e,axis=-1)
-- 
2.43.0


From 882de22edc2193d225b69480f13cea7d09eb390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:38 +0000
Subject: [PATCH 24/47] fix: generate_ranking_pairs returns the pairs it
 generates

---
 src/lop/utilities/preference_pairs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/utilities/preference_pairs.py b/src/lop/utilities/preference_pairs.py
index c70f7fb..073c7ab 100644
--- a/src/lop/utilities/preference_pairs.py
+++ b/src/lop/utilities/preference_pairs.py
@@ -112,5 +112,7 @@ def generate_ranking_pairs(X, real_f):
         for j, idx2 in enumerate(sorted_idx[i+1:]):
             pairs.append((get_dk(1,0), idx1, idx2))
 
+    return pairs
+
 
 
-- 
2.43.0


From b507117432c47886a213500acffbd1643b28ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 25/47] fix: AcquisitionSelection selects a single point
 without a previous selection

---
 src/lop/active_learning/AcquisitionSelection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 8ec26be..d5330fb 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -100,7 +100,7 @@ class AcquisitionSelection(AcquisitionBase):
             # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
             # But needs at least a pair in order to calculate properly.
             self.sel_metric = 0
-            return np.random.choice(indicies)[0]
+            return np.random.choice(indicies)
             #return np.argmax(mu)
 
         x_rep, Q_rep = self.get_representative_Q(candidate_pts)
-- 
2.43.0


From abfbe65134e85a562bc78502c8ad0c9f5950ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 26/47] fix: BayesInfoGain does not pair a point with itself
 when there is no data

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 92fa0f7..cd54929 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -178,7 +178,7 @@ class BayesInfoGain(ActiveLearner):
         p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
 
         if self.model.X_train is None:
-            idxs = np.random.choice(list(indicies), 2)
+            idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
         if debug:
-- 
2.43.0


From 7591e5fc05d17f9c4de124afd198e479d50cee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 27/47] fix: BayesInfoGain calls p_B_pref_linear with the
 arguments it takes

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index cd54929..d000aca 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -104,7 +104,7 @@ class BayesInfoGain(ActiveLearner):
                 probit_mat = self.model.probits[0].likelihood_all_pairs(mu)
 
                 # Get the probabilities of which candidate_pts is the best.
-                p_B = self.p_B_pref_linear(candidate_pts, mu, probit_mat)
+                p_B = self.p_B_pref_linear(candidate_pts, mu)
             self.p_B = p_B
             self.probit_mat = probit_mat
             self.first_call_greedy = False
-- 
2.43.0


From 79493a5acf3499faa49c3c0403f00c8467397774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 28/47] fix: pairs are picked from the points that may be
 selected

---
 src/lop/active_learning/AcquisitionSelection.py |  2 +-
 src/lop/active_learning/ActiveLearner.py        | 10 +++++++++-
 src/lop/active_learning/BayesInfoGain.py        |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index d5330fb..350a721 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -231,6 +231,6 @@ class AcquisitionSelection(AcquisitionBase):
         # represents the alignment metric for each pair being selected as align_Q
         align_Q = E_align_q + E_align_q.T
         
-        pair = self.pick_pair_from_metric(align_Q, prev_selection)
+        pair = self.pick_pair_from_metric(align_Q, prev_selection, indicies)
         self.sel_metric = align_Q[pair[0], pair[1]]
         return pair
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 1d9cd6d..a02c22b 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -264,13 +264,21 @@ class ActiveLearner:
     # pick a particular pair from a matrix of info gain
     # @param info_gain - 2d matrix [Q,Q] each represents the info gain of picking
     #                   pair [i,j].
+    # @param prev_selection - a set ofindicies of previously selected points
+    # @param indicies - [opt] the indicies both points of the pair must come from.
     #
     # @return (i,j) pair to select
-    def pick_pair_from_metric(self, info_gain, prev_selection):
+    def pick_pair_from_metric(self, info_gain, prev_selection, indicies=None):
         # just a check to ensure the same points do not get selected twice.
         # Shouldn't happen, but in case it does... really makes sure.
         np.fill_diagonal(info_gain, -np.inf)
 
+        # only consider pairs of the points that are allowed to be selected.
+        if indicies is not None:
+            not_allowed = [i for i in range(info_gain.shape[0]) if i not in indicies]
+            info_gain[not_allowed,:] = -np.inf
+            info_gain[:,not_allowed] = -np.inf
+
         sorted = np.argsort(info_gain.flatten())[-1::-1]
         N = info_gain.shape[0]
 
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index d000aca..79a4b15 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -257,7 +257,7 @@ class BayesInfoGain(ActiveLearner):
             print(info_gain)
 
 
-        idx_best = self.pick_pair_from_metric(info_gain, prev_selection)
+        idx_best = self.pick_pair_from_metric(info_gain, prev_selection, indicies)
         
 
         print('idx_best: ' + str(idx_best))
-- 
2.43.0


From 0858c38368d5d29d986fd82384f6551b61d9079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 29/47] fix: a learner that picks pairs is asked for a pair
 only when two points are wanted and available

---
 src/lop/active_learning/ActiveLearner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index a02c22b..534c788 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -106,7 +106,7 @@ class ActiveLearner:
                     selected_idx = not_selected[0]
                     not_selected.pop(0) 
                 else:
-                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
+                    if len(prev_selection) == 0 and select_pair_first and num_alts > 1 and len(sel_pts) + len(not_selected) == 0 and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_pair = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
@@ -138,7 +138,7 @@ class ActiveLearner:
             while len(sel_pts) < num_alts:
                 # only select from the prefered points if they still exist
                 if len(pref_not_sel) > 0:
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and num_alts > 1 and len(sel_pts) == 0 and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         
                         if selected_idx[0] in pref_not_sel:
@@ -155,7 +155,7 @@ class ActiveLearner:
                     # ensure that there is at least some pts left to select from
                     if len(all_not_selected) == 0:
                         raise Exception("Not enough points for select to create a full set")
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and num_alts > 1 and len(sel_pts) == 0 and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         all_not_selected.remove(selected_idx[0])
                         all_not_selected.remove(selected_idx[1])
-- 
2.43.0


From bf6bf9c1824e8d9c9993809a7a658611730eb0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 30/47] fix: select falls back to the points it put aside when
 the pool is used up

---
 src/lop/active_learning/ActiveLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 534c788..1c095cb 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -99,7 +99,7 @@ class ActiveLearner:
             all_not_selected = (set(range(len(candidate_pts))) - prev_selection) - set(sel_pts)
             not_selected = []
 
-            while len(sel_pts) < num_alts and len(all_not_selected) > 0:
+            while len(sel_pts) < num_alts and (len(all_not_selected) > 0 or (len(pref_not_sel) == 0 and len(not_selected) > 0)):
                 # weird case where points have been selected already but out of 'prefered points'
                 # take the first index of the list then.
                 if len(pref_not_sel) == 0 and len(not_selected) > 0:
-- 
2.43.0


From c9e82cf825309e017e6642fbc0ad7b65ad6829f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:22 +0000
Subject: [PATCH 31/47] fix: calc_cdf divides by the standard deviation, not
 the variance

---
 src/lop/utilities/probability_utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index 5ee8d68..a10fba4 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -38,7 +38,7 @@ def calc_cdf(mu, cov, method='mvn'):
 
     elif method == 'independent':
         
-        return np.prod(spec.ndtr((0 - mu) / np.diagonal(cov)))
+        return np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
 
     elif method == 'switch':
@@ -70,7 +70,7 @@ def calc_cdf(mu, cov, method='mvn'):
             mu = np.delete(mu, idx, 0)
 
         if cov.shape[0] == 1:
-            p *= spec.ndtr((0 - mu[0]) / cov[0,0])
+            p *= spec.ndtr((0 - mu[0]) / np.sqrt(cov[0,0]))
 
         return p
     
-- 
2.43.0


From 312f6a1648153d6a9348e362008299896664167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 32/47] fix: GV_UCBLearner with a linear model selects from a
 pool of one candidate

---
 src/lop/active_learning/GV_UCBLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/GV_UCBLearner.py b/src/lop/active_learning/GV_UCBLearner.py
index 64227a5..4cbdaa5 100644
--- a/src/lop/active_learning/GV_UCBLearner.py
+++ b/src/lop/active_learning/GV_UCBLearner.py
@@ -53,7 +53,7 @@ class GV_UCBLearner(UCBLearner):
             # generate possible outputs from weighted samples
             all_w = (candidate_pts @ w_samples.T).T
 
-            cov = np.cov(all_w.T)
+            cov = np.atleast_2d(np.cov(all_w.T))
             variance = np.diagonal(cov)
         indicies = list(indicies)
         prev_selection = list(prev_selection)
-- 
2.43.0


From 41d73da23041e75d640d7182f0165fb61e66183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 33/47] fix: calc_cdf switch never pairs a value with itself

---
 src/lop/utilities/probability_utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index a10fba4..be01a63 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -46,7 +46,7 @@ def calc_cdf(mu, cov, method='mvn'):
         cov = np.copy(cov)
         mu = np.copy(mu)
         mod_cov = np.abs(np.copy(cov))
-        np.fill_diagonal(mod_cov, 0)
+        np.fill_diagonal(mod_cov, -1)
 
         while cov.shape[0] > 1:
             idx = np.unravel_index(np.argmax(mod_cov), cov.shape)
-- 
2.43.0


From d2ab84c80535e228898c0d07c8dc44576812a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:51 +0000
Subject: [PATCH 34/47] fix: MixedComparision draws between the queries when
 the scaled metrics are equal

---
 src/lop/active_learning/RateChooseLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index c280ec0..0d4ce51 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -173,7 +173,7 @@ class MixedComparision(RateChooseLearner):
         print('Absloute selected metric: ' + str(abs_metric))
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
-- 
2.43.0


From dfe693fcc9051e3485d6c70bd64a77fdbc279dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:51 +0000
Subject: [PATCH 35/47] fix: AlignmentDecision.select can be called before its
 first decision

---
 src/lop/active_learning/MixedTypeDecision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 4d77717..6a5626c 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -70,7 +70,7 @@ class AlignmentDecision(RateChooseLearner):
         #abs_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
         select_pair = True
-        
+        rating_score, pref_score = None, None
 
         if self.num_calls < self.calls_to_decision:
             if self.num_calls % 2 == 0:
-- 
2.43.0


From 96b42adfad2d2dd3cce645bd26fde880cf921164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:51 +0000
Subject: [PATCH 36/47] fix: determine_query_type leaves the model fitted to
 all of its data

---
 src/lop/active_learning/MixedTypeDecision.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 6a5626c..04d9910 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -142,6 +142,7 @@ class AlignmentDecision(RateChooseLearner):
         ## Reset model and start evaluating samples
         self.model.y_train[0] = pref_data
         self.model.y_train[2] = rating_data
+        self.model.optimize()
 
         ## Evaluate samples
         align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
-- 
2.43.0


From a27c2c58e125987d6048985051935c585bedb4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:51 +0000
Subject: [PATCH 37/47] fix: mixed learners score the selected items when the
 remainder is asked for too

---
 src/lop/active_learning/RateChooseLearner.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index 0d4ce51..8628167 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -162,7 +162,8 @@ class MixedComparision(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        abs_sel = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_sel, [])
         abs_metric = self.abs_comp.sel_metric
         
 
@@ -359,22 +360,24 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        abs_sel = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_sel, [])
         abs_metric = self.abs_comp.sel_metric
         
         print('Pairwise selected metric: ' + str(pair_metric))
         print('Absloute selected metric: ' + str(abs_metric))
         
 
-        pair_samples = all_Q[:, pair_idxs]
-        if len(pair_idxs) == 2:
+        pair_sel = pair_idxs[0] if return_not_selected else pair_idxs
+        pair_samples = all_Q[:, pair_sel]
+        if len(pair_sel) == 2:
             eta2 = compute_effsize(pair_samples[:, 0], pair_samples[:, 1], paired=True, eftype='eta-square')
         else:
             raise NotImplementedError("Have not implemented effect size computation yet")
 
 
         # check if any selected pairs might be evaluating to the same value
-        if (candidate_pts[pair_idxs] == candidate_pts[pair_idxs[::-1]]).all(axis=0).any():
+        if (candidate_pts[pair_sel] == candidate_pts[pair_sel[::-1]]).all(axis=0).any():
             # there is at least one pair that is the same.
             # check if the estimated values are similar
 
-- 
2.43.0


From c3d8c87275ee6a3d5a204567e0a67b491133aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 38/47] fix: one-dimensional weighted minima and maxima treat a
 list like an array

---
 src/lop/utilities/FakeFunction.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 610dc1c..2e02302 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -145,8 +145,7 @@ class FakeWeightedMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
         return np.max(rewards * self.w, axis=1)
@@ -172,8 +171,7 @@ class FakeWeightedMin(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.min(rewards * self.w)
         return np.min(rewards * self.w, axis=1)
@@ -199,8 +197,7 @@ class FakeSquaredMinMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
         vals = rewards * self.w
-- 
2.43.0


From cc39cd8fcca75f72ec9ee681efce6a2bff027502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 39/47] fix: FakeSquaredMinMax gives a single point the value
 it gives the point in a batch

---
 src/lop/utilities/FakeFunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 2e02302..fde130c 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -198,9 +198,9 @@ class FakeSquaredMinMax(FakeFunction):
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
             return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
         vals = rewards * self.w
+        if len(rewards.shape) == 1:
+            return np.sqrt(np.max(vals)) + np.min(vals)*np.min(vals)
         mins = np.min(vals, axis=1)
         return np.sqrt(np.max(vals, axis=1)) + mins*mins
 
-- 
2.43.0


From 0cb76f76f2bc3433076a72614724e4ef991deb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 40/47] fix: FakeMixtureGaussian gives a single point one value

---
 src/lop/utilities/FakeFunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index fde130c..b13dd55 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -259,7 +259,7 @@ class FakeMixtureGaussian(FakeFunction):
     def calc(self, rewards):
         
 
-        if isinstance(rewards, np.ndarray):
+        if isinstance(rewards, np.ndarray) and (len(rewards.shape) > 1 or self.dim == 1):
             z = np.zeros(rewards.shape[0])
         else:
             z = 0
-- 
2.43.0


From b6b89de25ee6e7c6b1a27bbbf080f5dcf67ffe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 41/47] fix: a batch whose labels are refused leaves a
 preference model as it was

---
 src/lop/models/PreferenceModel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1d55f98..93c9537 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -189,11 +189,9 @@ class PreferenceModel(Model):
             training_sigma = np.ones(len(y)) * training_sigma
 
         if self.X_train is None:
-            self.X_train = X
             len_X = 0
         else:
             len_X = len(self.X_train)
-            self.X_train = np.append(self.X_train, X, axis=0)
 
         if type == 'relative_discrete':
             if len_X > 0:
@@ -251,6 +249,12 @@ class PreferenceModel(Model):
 
             self.y_train[self.probit_idxs[type]] = (v, idxs)
 
+        # the samples are only added once their labels have been accepted
+        if self.X_train is None:
+            self.X_train = X
+        else:
+            self.X_train = np.append(self.X_train, X, axis=0)
+
         if self.pareto_pairs and len(self.X_train) > 1:
             pairs = []
             d_better = get_dk(1,0)
-- 
2.43.0


From 3c2398b43ec85dac8f5ff8ab87d85bf0cc9360c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 42/47] fix: ratings given with their own indices refer to the
 samples of their batch

---
 src/lop/models/PreferenceModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 93c9537..4adda48 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -213,7 +213,7 @@ class PreferenceModel(Model):
                 new_y[:,0] = y
                 new_y[:,1] = np.arange(0, y.shape[0]) + len_X
             else:
-                new_y = y
+                new_y = y + np.array([0, len_X])
 
             if (new_y[:,0] <= 0).any():
                 raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
@@ -230,7 +230,7 @@ class PreferenceModel(Model):
         elif type == 'abs':
             if isinstance(y, tuple):
                 v = y[0]
-                idxs = y[1]
+                idxs = np.array(y[1]) + len_X
             elif isinstance(y, np.ndarray):
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
-- 
2.43.0


From f22cd57ecb717bfd738ea607870edbd9df787d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 43/47] fix: preference models keep their own copy of the first
 samples

---
 src/lop/models/PreferenceModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 4adda48..8416858 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -251,7 +251,7 @@ class PreferenceModel(Model):
 
         # the samples are only added once their labels have been accepted
         if self.X_train is None:
-            self.X_train = X
+            self.X_train = np.array(X)
         else:
             self.X_train = np.append(self.X_train, X, axis=0)
 
-- 
2.43.0


From e54f4f893cbdbad0ca8a2e68d1a573b1f9d74aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 44/47] fix: Gaussian processes keep their own copy of the
 first samples

---
 src/lop/models/GP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index 10f02ef..d28419b 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -69,7 +69,7 @@ class GP(Model):
         y = y - self.mean_func(X)
 
         if self.X_train is None:
-            self.X_train = X
+            self.X_train = np.array(X)
             self.y_train = y
             self.training_sigma = training_sigma
         else:
-- 
2.43.0


From 86947ba227fb35919cfabd722aee98bc28ecbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 45/47] fix: removing unreferenced samples keeps samples that
 only ratings refer to

---
 src/lop/models/PreferenceModel.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 8416858..04a2212 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -111,15 +111,20 @@ class PreferenceModel(Model):
     # @post - X_train has removed indicies, all references in y_train have been
     #          decremented
     def remove_without_reference(self, remove_prior=True):
-        counts = np.zeros(self.X_train.shape[0])
+        counts = np.zeros(self.X_train.shape[0], dtype=int)
 
         # iterate through each type of training data
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     counts[pair[1]] += 1
                     counts[pair[2]] += 1
+            else:
+                for idx in y[1]:
+                    counts[idx] += 1
 
         # check which pts don't have any counts
         #idx_to_rm = [x for x in range(len(counts)) if counts[x] == 0]
@@ -138,11 +143,16 @@ class PreferenceModel(Model):
         # reduce indicies of y_train to match removed indicies
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     pair[1] -= counts[pair[1]]
                     pair[2] -= counts[pair[2]]
+            else:
+                self.y_train[self.probit_idxs[type]] = (y[0], y[1] - counts[y[1]])
 
+        self.optimized = False
 
         if remove_prior:
             # update the index if they have been removed
-- 
2.43.0


From 4cd2d1dcf17440a128e06c4d554867cc4446acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 46/47] fix: removing unreferenced samples keeps the prior
 range on the prior samples

---
 src/lop/models/PreferenceModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 04a2212..6e836dd 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -154,9 +154,9 @@ class PreferenceModel(Model):
 
         self.optimized = False
 
-        if remove_prior:
+        if remove_prior and self.prior_idx is not None:
             # update the index if they have been removed
-            prior_idx = (self.prior_idx[0], self.prior_idx[1] - len(idx_to_rm))
+            prior_idx = tuple(end - len([x for x in idx_to_rm if x < end]) for end in self.prior_idx)
             self.prior_idx = prior_idx
 
 
-- 
2.43.0


From d574455984ec608ef2b0d70420e11a0ce288b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 47/47] fix: a preference model whose samples are all removed
 is empty again

---
 src/lop/models/PreferenceModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 6e836dd..4f191bb 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -159,6 +159,9 @@ class PreferenceModel(Model):
             prior_idx = tuple(end - len([x for x in idx_to_rm if x < end]) for end in self.prior_idx)
             self.prior_idx = prior_idx
 
+        if len(self.X_train) == 0:
+            self.reset()
+
 
 
     ## get_prior_pts
-- 
2.43.0

