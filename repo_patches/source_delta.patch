From e89e2b38c61796f76b7d47243bfed88ba11212f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 01/83] fix: Gaussian jacobian raised AttributeError, so
 Gaussian peaks could not be fit

---
 src/diffpy/srmise/peaks/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 2c9b713..83c322d 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -272,7 +272,7 @@ class Gaussian(PeakFunction):
             Only columns corresponding to `True` values in `free` are computed.
         """
         jacobian = [None, None, None]
-        if (free is False).sum() == self.npars:
+        if np.sum(np.logical_not(free)) == self.npars:
             return jacobian
 
         # Optimization
-- 
2.43.0


From e06edf1a8a67078289df7905a333e1a67a58e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 02/83] fix: Polynomial jacobian listed derivatives in reverse
 coefficient order

---
 src/diffpy/srmise/baselines/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index df0f379..55a7ae4 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -160,7 +160,8 @@ class Polynomial(BaselineFunction):
         # polynomial is just x^nth.
         for idx in range(self.npars):
             if free[idx]:
-                jacobian[idx] = np.power(r, idx)
+                # pars[idx] is the coefficient of degree (self.degree - idx)
+                jacobian[idx] = np.power(r, self.degree - idx)
         return jacobian
 
     def _transform_parametersraw(self, pars, in_format, out_format):
-- 
2.43.0


From 932e762276a12e2a8a9c94998fe14502ef3b4217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 03/83] fix: NanoSpherical mishandled negative scale and radius

---
 src/diffpy/srmise/baselines/nanospherical.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index c788b6b..0e2a02e 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -115,7 +115,7 @@ class NanoSpherical(BaselineFunction):
             return jacobian
 
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 if free[0]:
                     jacobian[0] = 0.0
                 if free[1]:
@@ -152,13 +152,12 @@ class NanoSpherical(BaselineFunction):
         array-like
             The partial Jacobian of the nanoparticle baseline wrt scale without bounds checking.
         """
-        np.abs(pars[0])
         R = np.abs(pars[1])
         rdivR = r / R
         # From abs'(s) in derivative, which is equivalent to sign(s) except at 0 where it
         # is undefined. Since s=0 is equivalent to the absence of a nanoparticle, sign will
         # be fine.
-        sign = np.sign(pars[1])
+        sign = np.sign(pars[0])
         return -sign * r * (1 - (3.0 / 4.0) * rdivR + (1.0 / 16.0) * rdivR**3)
 
     def _jacobianrawradius(self, pars, r):
@@ -247,7 +246,7 @@ class NanoSpherical(BaselineFunction):
             emsg = "Argument pars must have " + str(self.npars) + " elements."
             raise ValueError(emsg)
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 return 0.0
             else:
                 return self._valueraw2(pars, r)
@@ -296,7 +295,7 @@ class NanoSpherical(BaselineFunction):
             The slice object for which r > 0 and r < twice the radius
         """
         low = r.searchsorted(0.0, side="right")
-        high = r.searchsorted(2.0 * pars[1], side="left")
+        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left")
         return slice(low, high)
 
     def getmodule(self):
-- 
2.43.0


From fb704b9e991e7946ee7b86315efbc7177efd61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 04/83] fix: FromSequence dropped first character of data read
 from file

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 6333977..e8f38c2 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -262,7 +262,7 @@ class FromSequence(BaselineFunction):
 
         res = re.search(rb"^[^#]", datastring, re.M)
         if res:
-            datastring = datastring[res.end() :].strip()
+            datastring = datastring[res.start() :].strip()
 
         x = []
         y = []
-- 
2.43.0


From a2680b80bc18e1fc968308b52ef40e9064712e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 05/83] fix: Arbitrary baseline had one parameter too many and
 failed without a jacobian

---
 src/diffpy/srmise/baselines/arbitrary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index d0f8c99..5b656f2 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -68,7 +68,7 @@ class Arbitrary(BaselineFunction):
         # Define parameterdict
         # e.g. {"a_0":0, "a_1":1, "a_2":2, "a_3":3} if npars is 4.
         parameterdict = {}
-        for d in range(testnpars + 1):
+        for d in range(testnpars):
             parameterdict["a_" + str(d)] = d
         formats = ["internal"]
         default_formats = {
@@ -164,7 +164,7 @@ class Arbitrary(BaselineFunction):
         """
         nfree = None
         if self.jacobianf is None:
-            nfree = (pars is True).sum()
+            nfree = np.sum(free)
             if nfree != 0:
                 emsg = "No jacobian routine provided to Arbitrary."
                 raise NotImplementedError(emsg)
-- 
2.43.0


From 83bc5139fdd1945969f49a78897f8d968a80a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 06/83] fix: TerminationRipples jacobian at a single value
 raised UnboundLocalError

---
 src/diffpy/srmise/peaks/terminationripples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 315e02a..98b1fe9 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -255,7 +255,7 @@ class TerminationRipples(PeakFunction):
             dr = 2 * np.pi / (self.supersample * self.qmax)
             (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
-            for idx in range(len(output)):
+            for idx in range(len(jac)):
                 if jac[idx] is not None:
                     jac[idx] = self.cut_freq(jac[idx], dr)[ext_slice][0]
             return jac
-- 
2.43.0


From 1b345d7caf635c28aae9b177e172edb79a90403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 07/83] fix: TerminationRipples jacobian ignored supersampling,
 and one-point grids failed

---
 src/diffpy/srmise/peaks/terminationripples.py | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 98b1fe9..d3b5b12 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -230,29 +230,39 @@ class TerminationRipples(PeakFunction):
                 "it is associated."
             )
 
+        dr_super = 2 * np.pi / (self.supersample * self.qmax)
+
         # normally r will be a sequence, but also allow single numeric values
         try:
             if len(r) > 1:
                 dr = (r[-1] - r[0]) / (len(r) - 1)
             else:
                 # dr is ad hoc if r is a single point
-                dr = 2 * np.pi / (self.supersample * self.qmax)
+                dr = dr_super
 
             if rng is None:
                 rng = slice(0, len(r))
+            # Supersample coarse grids exactly as value() does, otherwise the
+            # jacobian is not the derivative of the evaluated function.
+            segments = max(int(np.ceil(dr / dr_super)), 1)
+            dr_segmented = dr / segments
+
             rpart = r[rng]
-            (ext_r, ext_slice) = self.extend_grid(rpart, dr)
+            if segments > 1:
+                rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)
+
+            (ext_r, ext_slice) = self.extend_grid(rpart, dr_segmented)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
             output = [None for j in jac]
             for idx in range(len(output)):
                 if jac[idx] is not None:
-                    jac[idx] = self.cut_freq(jac[idx], dr)
+                    jac[idx] = self.cut_freq(jac[idx], dr_segmented)
                     output[idx] = r * 0.0
-                    output[idx][rng] = jac[idx][ext_slice]
+                    output[idx][rng] = jac[idx][ext_slice][::segments]
             return output
         except TypeError:
             # dr is ad hoc if r is a single point.
-            dr = 2 * np.pi / (self.supersample * self.qmax)
+            dr = dr_super
             (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
             for idx in range(len(jac)):
@@ -316,7 +326,11 @@ class TerminationRipples(PeakFunction):
             # of sampling needed to avoid the worst of these discretization
             # issues is difficult to determine without detailed knowledge
             # of the underlying function.
-            dr = (r[-1] - r[0]) / (len(r) - 1)
+            if len(r) > 1:
+                dr = (r[-1] - r[0]) / (len(r) - 1)
+            else:
+                # dr is ad hoc if r is a single point
+                dr = dr_super
             segments = int(np.ceil(dr / dr_super))
             dr_segmented = dr / segments
 
-- 
2.43.0


From 8e9968526c82c2c7ec9490a330c167aef5ab1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 08/83] fix: factories let an out-of-range owner index escape
 as IndexError

---
 src/diffpy/srmise/basefunction.py   | 2 +-
 src/diffpy/srmise/baselines/base.py | 2 +-
 src/diffpy/srmise/peaks/base.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 861a85d..dbb0328 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -487,7 +487,7 @@ class BaseFunction(object):
         # Correctly initialize the base function, if one exists.
         if pdict["base"] is not None:
             idx = pdict["base"]
-            if idx > len(baselist):
+            if idx >= len(baselist):
                 emsg = "Dependent base function not in baselist."
                 raise ValueError(emsg)
             pdict["base"] = baselist[idx]
diff --git a/src/diffpy/srmise/baselines/base.py b/src/diffpy/srmise/baselines/base.py
index fabf835..3ce3962 100644
--- a/src/diffpy/srmise/baselines/base.py
+++ b/src/diffpy/srmise/baselines/base.py
@@ -190,7 +190,7 @@ class Baseline(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 7e57c10..40fb4e2 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -297,7 +297,7 @@ class Peak(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
-- 
2.43.0


From 507dcfd0ad3d86ef60d7ad499a50dcad8a5c8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 09/83] fix: fit counted data outside the fit range as degrees
 of freedom

---
 src/diffpy/srmise/modelparts.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d4d17ae..8c79a4f 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -94,13 +94,18 @@ class ModelParts(list):
         -------
         None
         """
+        if range is None:
+            range = slice(None)
+
         freepars = self.unpack_freepars()
-        if len(freepars) >= len(r):
+        # Only data within range are fit.
+        npoints = len(r[range])
+        if len(freepars) >= npoints:
             emsg = (
                 "Cannot fit model with "
                 + str(len(freepars))
                 + " free parametersbut only "
-                + str(len(r))
+                + str(npoints)
                 + " data points."
             )
             raise SrMiseFitError(emsg)
@@ -109,9 +114,6 @@ class ModelParts(list):
             # raise SrMiseFitError(emsg)
             return
 
-        if range is None:
-            range = slice(None)
-
         args = (r, y, y_error, range)
 
         if srmiselog.liveplots:
@@ -210,7 +212,7 @@ class ModelParts(list):
         if cov is not None:
             pcov = f[1]
             fvec = f[2]["fvec"]
-            dof = len(r) - len(freepars)
+            dof = npoints - len(freepars)
             cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
                 cov.transform(in_format="internal", out_format=cov_format)
-- 
2.43.0


From 90d0097cbc687080f00970675f509ea4ff6995f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 10/83] fix: fit crashed with TypeError when the covariance
 matrix is singular

---
 src/diffpy/srmise/modelparts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 8c79a4f..4f9fba5 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -213,7 +213,11 @@ class ModelParts(list):
             pcov = f[1]
             fvec = f[2]["fvec"]
             dof = npoints - len(freepars)
-            cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
+            if pcov is None:
+                # leastsq() found a singular matrix, so there is no estimate
+                cov.clear()
+            else:
+                cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
-- 
2.43.0


From 1fd831f2473e3f61a426c7d1905c051b53739543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 11/83] fix: ModelCovariance kept stale parameter indices when
 reused for another model

---
 src/diffpy/srmise/modelcluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a64c5..114d9c2 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -104,6 +104,7 @@ class ModelCovariance(object):
             ]
             raise ValueError("".join(emsg))
 
+        self.clear()  # discard any maps from an earlier model
         self.model = model.copy()
 
         # The free/fixed status of every parameter in the model
-- 
2.43.0


From 6dc1c7aa36e923a207c41940ffa654c23bb972ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 12/83] fix: ModelCovariance.transform raised KeyError for
 parts='baseline'

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 114d9c2..b56f184 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -174,7 +174,7 @@ class ModelCovariance(object):
             if kwds["parts"] == "peaks":
                 parts = range(len(self.model) - 1)
             elif kwds["parts"] == "baseline":
-                parts = [-1]
+                parts = [len(self.model) - 1]
             else:
                 parts = kwds["parts"]
         else:
-- 
2.43.0


From 5155983c549399a553ae3aafa1fdbcdbe51af5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 13/83] fix: ModelCovariance.transform converted parameters
 whose covariance it left alone

---
 src/diffpy/srmise/modelcluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index b56f184..dc27aae 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -195,6 +195,7 @@ class ModelCovariance(object):
             start = self.mmap[i][0]
             stop = self.mmap[i][-1] + 1
             p = self.model[i]
+            # Parameters and covariance are transformed together or not at all.
             try:
                 subg = p.owner().transform_derivatives(p.pars, in_format, out_format)
             except NotImplementedError:
@@ -202,13 +203,13 @@ class ModelCovariance(object):
                     "Transformation gradient not implemented for part %i: %s.  Ignoring transformation."
                     % (i, str(p))
                 )
-                subg = np.identity(p.npars(True))
+                continue
             except Exception as e:
                 logger.warning(
                     "Transformation gradient failed for part %i: %s. "
                     "Failed with message %s. Ignoring transformation." % (i, str(p), str(e))
                 )
-                subg = np.identity(p.npars(True))
+                continue
 
             # Now transform the parameters to match
             try:
-- 
2.43.0


From 530e05db4fe5701a602985d6f1a433acab43b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 14/83] fix: Gaussian had no transformation gradient, so its
 uncertainties were not converted

---
 src/diffpy/srmise/peaks/gaussian.py | 54 +++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 83c322d..67a8cab 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -305,6 +305,60 @@ class Gaussian(PeakFunction):
                 jacobian[2] = -exp_p
         return jacobian
 
+    def _transform_derivativesraw(self, pars, in_format, out_format):
+        """Return gradient matrix for the pars converted from in_format
+        to out_format.
+
+        Parameters
+        ----------
+        pars: Sequence of parameters
+        in_format: A format defined for this class
+        out_format: A format defined for this class
+
+        Defined Formats
+        internal: [position, parameterized width-squared, area]
+        pwa: [position, full width at half maximum, area]
+        mu_sigma_area: [mu, sigma, area]
+        """
+        # With these three formats only the width-related parameter changes.
+        # Therefore the gradient matrix is the identity matrix with the possible
+        # exception of the element at [1,1].
+        g = np.identity(self.npars)
+
+        if in_format == out_format:
+            return
+
+        if in_format == "internal":
+            if out_format == "pwa":
+                g[1, 1] = self.maxwidth / (2 * np.sqrt(2)) * np.cos(pars[1]) / np.sqrt(1 + np.sin(pars[1]))
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = (
+                    self.maxwidth
+                    / (2 * np.sqrt(2) * self.sigma2fwhm)
+                    * np.cos(pars[1])
+                    / np.sqrt(1 + np.sin(pars[1]))
+                )
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "pwa":
+            if out_format == "internal":
+                g[1, 1] = 2 / np.sqrt(self.maxwidth**2 - pars[1] ** 2)
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = 1 / self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "mu_sigma_area":
+            if out_format == "internal":
+                g[1, 1] = 2 * self.sigma2fwhm / np.sqrt(self.maxwidth**2 - (self.sigma2fwhm * pars[1]) ** 2)
+            elif out_format == "pwa":
+                g[1, 1] = self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        else:
+            raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
+
+        return g
+
     def _transform_parametersraw(self, pars, in_format, out_format):
         """Convert parameter values from one format to another.
 
-- 
2.43.0


From 6073fda149378ab5aa7456420363b8a865a7340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 15/83] fix: Peaks.match_at never rescaled around peaks that
 cannot be scaled

---
 src/diffpy/srmise/peaks/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 40fb4e2..2fc8a9d 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -188,10 +188,10 @@ class Peaks(ModelParts):
 
             # Second attempt at scaling peaks.
             if not all_scaled and fixed_height < y and fixed_height < height:
-                self[:] = orig[:]
+                self[:] = orig.copy()
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
-                for peak, s in (self, scaled):
+                for peak, s in zip(self, scaled):
                     if s:
                         # "or" is short-circuited, so scale_at() must be first
                         # to guarantee it is called.
@@ -260,7 +260,7 @@ class Peak(ModelPart):
         try:
             adj_pars = self._owner.scale_at(self.pars, x, scale)
         except SrMiseScalingError as err:
-            logger.debug("Cannot scale peak:", err)
+            logger.debug("Cannot scale peak: %s", err)
             return False
 
         # Check if a fixed parameter was changed.
-- 
2.43.0


From b81d25c34c5239ed3332d27b76a1079a3264354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 16/83] fix: scale_at returned NaN or zero-width peaks when the
 scaling has no solution

---
 src/diffpy/srmise/peaks/gaussian.py      | 4 ++++
 src/diffpy/srmise/peaks/gaussianoverr.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 67a8cab..f268e11 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -230,6 +230,10 @@ class Gaussian(PeakFunction):
         area2 = np.sqrt(area1**2 / (2 * np.log(ratio) * sigma1**2 / (x - mu1) ** 2 + 1))
         sigma2 = sigma1 * area2 / area1
 
+        if not (np.all(np.isfinite([mu2, sigma2, area2])) and sigma2 > 0 and area2 > 0):
+            emsg = "No peak with the same maximum has its value at %s scaled by %s." % (x, scale)
+            raise SrMiseScalingError(emsg)
+
         tpars[0] = mu2
         tpars[1] = sigma2
         tpars[2] = area2
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c47191a..029af53 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -244,6 +244,10 @@ class GaussianOverR(PeakFunction):
             / np.exp(-((rmax - mu2) ** 2) / (2 * sigma2**2))
         )
 
+        if not (np.all(np.isfinite([mu2, sigma2, area2])) and sigma2 > 0 and area2 > 0):
+            emsg = "No peak with the same maximum has its value at %s scaled by %s." % (x, scale)
+            raise SrMiseScalingError(emsg)
+
         tpars[0] = mu2
         tpars[1] = sigma2
         tpars[2] = area2
-- 
2.43.0


From 763d8b888c29f9748a1be62908b973322a0567b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 17/83] fix: prune counted fixed parameters against the pruned
 models

---
 src/diffpy/srmise/modelcluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index dc27aae..e131b99 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1552,7 +1552,12 @@ class ModelCluster(object):
                     ]
                     logger.debug("\n".join(msg), len(check_models), len(best_model), i)
 
-                    addpars = best_model.npars() - check_models[i].npars() - best_model[i].npars(count_fixed=False)
+                    # Only free parameters contribute to model quality
+                    addpars = (
+                        best_model.npars(count_fixed=False)
+                        - check_models[i].npars(count_fixed=False)
+                        - best_model[i].npars(count_fixed=False)
+                    )
 
                     # Remove contribution of (effectively) fixed peaks
                     y = np.array(y_nobl)
-- 
2.43.0


From 4ce15853f2f903bcacfe0a071869dc376f4a380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 18/83] fix: prune raised IndexError when only non-removable
 peaks remained

---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index e131b99..241d3a5 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1594,6 +1594,10 @@ class ModelCluster(object):
                     if qual < best_qual:
                         check_models[i] = None
 
+            # cleanfit() may already have removed every other removable peak
+            if len(check_qual) == 0:
+                break
+
             arg = check_qual.argsort()
 
             msg = [
-- 
2.43.0


From 5bdcee9803f3b076ef93f01884be601874072f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 19/83] fix: prune kept the parameters of rejected fits

---
 src/diffpy/srmise/modelcluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 241d3a5..ad5ab41 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1582,6 +1582,8 @@ class ModelCluster(object):
                     logger.debug("\n".join(msg), i, best_model[i], prune_mc.model)
 
                     prune_mc.fit(ntrials=int(np.sqrt(len(y)) + 50), estimate=False)
+                    # A rejected fit replaces the model rather than restoring it
+                    check_models[i] = prune_mc.model
 
                     qual = prune_mc.quality(kshift=addpars)
                     check_qual = np.append(check_qual, qual)
-- 
2.43.0


From f61726edaeb4a1f2f8c4b636acdca99875784f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 20/83] fix: augment failed with non-removable peaks and kept
 the parameters of rejected fits

---
 src/diffpy/srmise/modelcluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index ad5ab41..9bc0758 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1427,6 +1427,8 @@ class ModelCluster(object):
             for i in range(len(test_models)):
                 self.model = test_models[i]
                 self.fit()
+                # A rejected fit replaces the model rather than restoring it
+                test_models[i] = self.model
                 test_quals[i] = self.quality()
 
             args = test_quals.argsort()
@@ -1436,7 +1438,10 @@ class ModelCluster(object):
                 del source_model[args[-1]]
             else:
                 break  # Best possible model has been found.
-        self.replacepeaks(best_model, slice(len(self.model)))
+        # Every peak of the original model is still in best_model, so this
+        # must not be treated as the removal of any (non-removable) peak.
+        self.model = best_model
+        self.model.sort()
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-- 
2.43.0


From a64347625e4a5904eefcb8cbb17d69eb18202ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 21/83] fix: change_slice raised TypeError for slices with
 implicit bounds

---
 src/diffpy/srmise/modelcluster.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 9bc0758..debdc45 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -912,13 +912,16 @@ class ModelCluster(object):
         if old_slice is None:
             self.never_fit = max(y_cluster_nobl - self.error_cluster) < 0
         else:
+            n = len(self.r_data)
+            new_start, new_stop = self.slice.indices(n)[:2]
+            old_start, old_stop = old_slice.indices(n)[:2]
             # check if slice has expanded on the left
-            if self.never_fit and self.slice.start < old_slice.start:
-                left_slice = slice(self.slice.start, old_slice.start)
+            if self.never_fit and new_start < old_start:
+                left_slice = slice(new_start, old_start)
                 self.never_fit = max(y_data_nobl[left_slice] - self.y_error[left_slice]) < 0
             # check if slice has expanded on the right
-            if self.never_fit and self.slice.stop > old_slice.stop:
-                right_slice = slice(old_slice.stop, self.slice.stop)
+            if self.never_fit and new_stop > old_stop:
+                right_slice = slice(old_stop, new_stop)
                 self.never_fit = max(y_data_nobl[right_slice] - self.y_error[right_slice]) < 0
 
         return
-- 
2.43.0


From ddd024f315e516927e307f8f7c9de387f97bf85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 22/83] fix: ModelCluster strings without baseline or evaluator
 could not be written or read

---
 src/diffpy/srmise/modelcluster.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index debdc45..9fa4a8d 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -556,7 +556,9 @@ class ModelCluster(object):
             blfbaselist = kwds["blfbaselist"]
             writeblf = False
         else:
-            blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
+            blfbaselist = []
+            if self.baseline is not None:
+                blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
             writeblf = True
 
         lines = []
@@ -716,7 +718,11 @@ class ModelCluster(object):
         res = re.search(r"^ModelEvaluator=(.*)$", header, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        error_method = getattr(module, res.groups()[0].strip())
+        error_method = res.groups()[0].strip()
+        if error_method == "None":
+            error_method = None
+        else:
+            error_method = getattr(module, error_method)
 
         # slice
         res = re.search(r"^slice=(.*)$", header, re.M)
-- 
2.43.0


From 3fda77059c27e7ec28f67e2494020db9b6d35e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 23/83] fix: saved models could not be loaded since
 diffpy.srmise.modelevaluators defines no evaluator

---
 src/diffpy/srmise/modelevaluators/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelevaluators/__init__.py b/src/diffpy/srmise/modelevaluators/__init__.py
index 0efb8dc..be0297c 100644
--- a/src/diffpy/srmise/modelevaluators/__init__.py
+++ b/src/diffpy/srmise/modelevaluators/__init__.py
@@ -13,3 +13,6 @@
 ##############################################################################
 
 # __init__.py file for modelevalutors module
+
+from diffpy.srmise.modelevaluators.aic import AIC  # noqa: F401
+from diffpy.srmise.modelevaluators.aicc import AICc  # noqa: F401
-- 
2.43.0


From 5b7f79184003bc3590b9d9ee22a055cfa097302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 24/83] fix: ModelCluster strings kept only six digits of the
 data

---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 9fa4a8d..7e88ce2 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -606,7 +606,8 @@ class ModelCluster(object):
         lines.append("### start data")
         lines.append("#L r y dy")
         for i in range(len(self.r_data)):
-            lines.append("%g %g %g" % (self.r_data[i], self.y_data[i], self.y_error[i]))
+            data = (self.r_data[i], self.y_data[i], self.y_error[i])
+            lines.append(" ".join(repr(float(v)) for v in data))
 
         datastring = "\n".join(lines) + "\n"
         return datastring
-- 
2.43.0


From 246a7fb4fb5443210f6cf3d1ad82ddc398e10ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 25/83] fix: extract_single and fit_single overwrote the
 caller's baseline and initial peaks

---
 src/diffpy/srmise/peakextraction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 48e3419..1a35cf0 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -832,7 +832,9 @@ class PeakExtraction(object):
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
-        bl = self.baseline
+
+        # Copy the baseline, since it is ultimately fit with the peaks.
+        bl = self.baseline.copy()
 
         # Copy initial_peaks
         # While it would be nice to integrate them into extracted model naturally
@@ -1381,9 +1383,10 @@ class PeakExtraction(object):
         dy = self.effective_dy[rngslice]
 
         # Set up ModelCluster
+        # Fit copies, so that the starting point of the fit is kept.
         ext = ModelCluster(
-            self.initial_peaks,
-            self.baseline,
+            self.initial_peaks.copy(),
+            self.baseline.copy(),
             x,
             y,
             dy,
-- 
2.43.0


From 68ec1463a1bb9ff3669db07cf140c182f8f72624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 26/83] fix: a partially defined rng was completed in the
 caller's list

---
 src/diffpy/srmise/peakextraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 1a35cf0..ffd770b 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -222,6 +222,8 @@ class PeakExtraction(object):
         if self.rng is None or "rng" in args:
             self.rng = [self.x[0], self.x[-1]]
         else:
+            # Make a copy, since the sequence belongs to the caller.
+            self.rng = [self.rng[0], self.rng[1]]
             if self.rng[0] is None:
                 self.rng[0] = self.x[0]
             if self.rng[1] is None:
-- 
2.43.0


From ebec0233e4b78e9b84582cde977c1b5b6f058989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 27/83] fix: add_peaks raised TypeError when initial_peaks was
 unset

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index ffd770b..d6d7ef3 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -811,7 +811,7 @@ class PeakExtraction(object):
             self.extracted.replacepeaks(peaks)
         else:
             if self.initial_peaks is None:
-                self.setvars("initial_peaks")
+                self.initial_peaks = Peaks()
             self.initial_peaks.extend(peaks)
             self.initial_peaks.sort(key="position")
 
-- 
2.43.0


From cf1f6d5507c925560a02f940cd30eadd7872cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 28/83] fix: PeakExtraction.plot ignored the value of its
 joined keyword

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index d6d7ef3..449f172 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -283,7 +283,7 @@ class PeakExtraction(object):
         """
         plt.clf()
         if self.extracted is not None:
-            plt.plot(*self.extracted.plottable(kwds))
+            plt.plot(*self.extracted.plottable(**kwds))
         else:
 
             # Make sure all required extraction variables have some value
@@ -303,7 +303,7 @@ class PeakExtraction(object):
                 self.error_method,
                 self.pf,
             )
-            plt.plot(*mcluster.plottable(kwds))
+            plt.plot(*mcluster.plottable(**kwds))
 
     def read(self, filename):
         """Load PeakExtraction object from file.
-- 
2.43.0


From 6c8790b2d7c41cefa5845d2652b2cfc881f74048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 29/83] fix: PeakExtraction.read parsed bytes, so no saved file
 could be read

---
 src/diffpy/srmise/peakextraction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 449f172..1fa72b4 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -318,8 +318,10 @@ class PeakExtraction(object):
         self
         """
         try:
-            self.readstr(open(filename, "rb").read())
-        except SrMiseDataFormatError as err:
+            with open(filename) as f:
+                datastring = f.read()
+            self.readstr(datastring)
+        except (SrMiseDataFormatError, UnicodeDecodeError) as err:
             logger.exception("")
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
-- 
2.43.0


From 1a6bdbd227ac370b03f69e48615d10c75212632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 30/83] fix: reading a saved extraction failed on an invalid
 regular expression

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 1fa72b4..c19b6cb 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -390,7 +390,7 @@ class PeakExtraction(object):
         res = re.search(r"\bdy\b", start_data_info)
         if res:
             hasdy = True
-        res = re.search(r"\edy\b", start_data_info)
+        res = re.search(r"\bedy\b", start_data_info)
         if res:
             hasedy = True
 
-- 
2.43.0


From de725e88e06cb39428102cba52d5fbd9abf9bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 31/83] fix: a PeakExtraction with unset variables or no
 metadata could not be saved and loaded

---
 src/diffpy/srmise/peakextraction.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index c19b6cb..1756e7a 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -460,16 +460,18 @@ class PeakExtraction(object):
             self.pf = [safepf[i] for i in self.pf]
 
         # cres
-        rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
-        regexp = r"\bcres *= *(%(f)s)\b" % rx
-        res = re.search(regexp, srmisemetadata, re.I)
-        self.cres = float(res.groups()[0])
+        res = re.search(r"^cres=(.*)$", srmisemetadata, re.M)
+        cres = res.groups()[0].strip()
+        self.cres = None if cres == "None" else float(cres)
 
         # error_method
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
-        __import__("diffpy.srmise.modelevaluators")
-        module = sys.modules["diffpy.srmise.modelevaluators"]
-        self.error_method = getattr(module, res.groups()[0].strip())
+        if res.groups()[0].strip() == "None":
+            self.error_method = None
+        else:
+            __import__("diffpy.srmise.modelevaluators")
+            module = sys.modules["diffpy.srmise.modelevaluators"]
+            self.error_method = getattr(module, res.groups()[0].strip())
 
         # range
         res = re.search(r"^Range=(.*)$", srmisemetadata, re.M)
@@ -649,7 +651,7 @@ class PeakExtraction(object):
             lines.append("pf=%s" % repr([safepf.index(p) for p in self.pf]))
 
         # Clustering resolution
-        lines.append("cres=%g" % self.cres)
+        lines.append("cres=None" if self.cres is None else "cres=%r" % float(self.cres))
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
@@ -711,10 +713,10 @@ class PeakExtraction(object):
 
     def writemetadata(self):
         """Return string for metadata not defined by srmise class."""
-        return
+        return ""
 
-    def readmetadata(self):
-        """Return string for metadata not defined by srmise class."""
+    def readmetadata(self, metastr):
+        """Read metadata not defined by srmise class from string."""
         return
 
     def writesummary(self):
-- 
2.43.0


From 867a0b0035aafb6ffba76a2cf6f1ed9ef062e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 32/83] fix: saved extractions kept only six digits of the data

---
 src/diffpy/srmise/peakextraction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 1756e7a..3646cb7 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -687,15 +687,15 @@ class PeakExtraction(object):
         for i in range(numlines):
             line = []
             if self.x is not None:
-                line.append("%g" % self.x[i])
+                line.append("%r" % float(self.x[i]))
             if self.y is not None:
-                line.append("%g" % self.y[i])
+                line.append("%r" % float(self.y[i]))
             if self.dx is not None:
-                line.append("%g" % self.dx[i])
+                line.append("%r" % float(self.dx[i]))
             if self.dy is not None:
-                line.append("%g" % self.dy[i])
+                line.append("%r" % float(self.dy[i]))
             if self.effective_dy is not None:
-                line.append("%g" % self.effective_dy[i])
+                line.append("%r" % float(self.effective_dy[i]))
             lines.append(" ".join(line))
 
         #  Calculated members
-- 
2.43.0


From e68f4d0f5f25a75a9f21649814150b792819857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 33/83] fix: data lines with missing or extra fields were read
 without an error

---
 src/diffpy/srmise/peakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 3646cb7..37cf9d5 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -514,6 +514,7 @@ class PeakExtraction(object):
                 split_line = line.split()
                 if len(arrays) != len(split_line):
                     emsg = "Number of value fields does not match that given by '%s'" % start_data_info
+                    raise SrMiseDataFormatError(emsg)
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-- 
2.43.0


From af3ab3a2cbfd486c478027ee181eaafde80462d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 34/83] fix: malformed saved extractions raised arbitrary
 errors instead of SrMiseDataFormatError

---
 src/diffpy/srmise/peakextraction.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 37cf9d5..e4ab1ca 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -339,6 +339,17 @@ class PeakExtraction(object):
         datastring : array-like
             The raw data to read
         """
+        try:
+            self._readstr(datastring)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            # Missing sections, fields, or values which cannot be interpreted.
+            emsg = "Invalid or missing data: %s: %s" % (type(err).__name__, err)
+            raise SrMiseDataFormatError(emsg)
+
+    def _readstr(self, datastring):
+        """Initialize members from string, without handling malformed data."""
         from diffpy.srmise.basefunction import BaseFunction
 
         self.clear()
-- 
2.43.0


From 0af51065f1e1b05dc1a63d4f29c25de0d386e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 35/83] fix: TracePeaks.read parsed bytes, so no trace file
 could be read

---
 src/diffpy/srmise/srmiselog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index d5fcd6f..9de6057 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -247,8 +247,10 @@ class TracePeaks(object):
         "recursion" - The recursion level of mc
         """
         try:
-            return self.readstr(open(filename, "rb").read())
-        except SrMiseDataFormatError as err:
+            with open(filename) as f:
+                datastring = f.read()
+            return self.readstr(datastring)
+        except (SrMiseDataFormatError, UnicodeDecodeError) as err:
             logger.exception("")
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
-- 
2.43.0


From 04332a5490826cc7b266bd55ef9cdde23cd60459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 36/83] fix: TracePeaks.readstr reported its own recursion and
 counter instead of the stored ones

---
 src/diffpy/srmise/srmiselog.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 9de6057..35e0c84 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -298,14 +298,14 @@ class TracePeaks(object):
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            recursion = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            counter = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
@@ -313,8 +313,8 @@ class TracePeaks(object):
         return {
             "mc": mc,
             "clusters": clusters,
-            "recursion": self.recursion,
-            "counter": self.counter,
+            "recursion": recursion,
+            "counter": counter,
         }
 
     def pushr(self):
-- 
2.43.0


From 90ff83c84f8813d8833e528262a37d7169e6e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 37/83] fix: traces with numpy integers in their cluster slices
 could not be read

---
 src/diffpy/srmise/srmiselog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 35e0c84..30a7a6b 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -42,6 +42,8 @@ import logging
 import os.path
 import re
 
+import numpy as np
+
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError
 
 # Default settings ###
@@ -291,7 +293,8 @@ class TracePeaks(object):
 
         res = re.search(r"^clusters=(.*)$", header, re.M)
         if res:
-            clusters = eval(res.groups()[0].strip())
+            # Slices may consist of numpy integers
+            clusters = eval(res.groups()[0].strip(), {"np": np})
         else:
             emsg = "Required field 'clusters' not found."
             raise SrMiseDataFormatError(emsg)
-- 
2.43.0


From ca4a92e32afda1556c028eb92fb12d495846aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 38/83] fix: find_nearest_cluster2 failed right of the data and
 did not use the nearest point

---
 src/diffpy/srmise/dataclusters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index c79d5fb..87a4330 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -255,8 +255,10 @@ class DataClusters:
             raise Exception("Cannot cluster next point while status is INIT.")
 
         idx = np.searchsorted(self.x, x)
-        if idx > 0 or idx >= len(self.x):
+        if idx == 0:
             return self.find_nearest_cluster(idx)
+        elif idx >= len(self.x):
+            return self.find_nearest_cluster(len(self.x) - 1)
         else:
             # Choose adjacent index nearest to x
             if (self.x[idx] - x) < (x - self.x[idx - 1]):
-- 
2.43.0


From 5ac3a32a44e4e0eff408fb8f01a69cec078346f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 39/83] fix: adjacent clusters in groups of different size
 could be neither found nor combined

---
 src/diffpy/srmise/dataclusters.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 87a4330..f00e1f9 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -359,7 +359,9 @@ class DataClusters:
         None
         """
         # Ensure that the same clusters aren't combined multiple times.
-        combine_flat = np.array(combine).ravel()
+        if len(combine) == 0:
+            return
+        combine_flat = np.concatenate([np.ravel(c) for c in combine])
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
 
@@ -394,7 +396,7 @@ class DataClusters:
 
             # update cluster endpoints
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
-        todelete = np.array([c[1:] for c in combine]).ravel()
+        todelete = np.concatenate([np.array(c[1:], dtype=int) for c in combine])
         self.clusters = np.delete(self.clusters, todelete, 0)
 
     def find_adjacent_clusters(self):
@@ -431,6 +433,12 @@ class DataClusters:
             if right_idx > left_idx:
                 adj.append(range(left_idx, right_idx + 1))
             left_idx = right_idx + 1  # set for next possible left_idx
+        if len(set(len(a) for a in adj)) > 1:
+            # Subarrays of different length only fit in an array of objects.
+            ragged = np.empty(len(adj), dtype=object)
+            for i, a in enumerate(adj):
+                ragged[i] = np.array(a)
+            return ragged
         return np.array(adj)
 
     def cut(self, idx):
-- 
2.43.0


From ffee5f0ce7d03d5cb9623f8e76ad82c67a6d5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 40/83] fix: combine_clusters corrupted the clusters, or raised
 IndexError, for invalid requests

---
 src/diffpy/srmise/dataclusters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index f00e1f9..01b1e53 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -367,9 +367,8 @@ class DataClusters:
 
         for c in combine:
             # Test that all clusters are contiguous and adjacent
-            first = c[0]
-            for i in range(c[0], c[-1]):
-                if c[i + 1 - first] - 1 != c[i - first]:
+            for i in range(len(c) - 1):
+                if c[i + 1] - 1 != c[i]:
                     raise ValueError(
                         "".join(
                             [
@@ -381,7 +380,7 @@ class DataClusters:
                             ]
                         )
                     )
-                if self.clusters[i + 1, 0] - self.clusters[i, 1] != 1:
+                if self.clusters[c[i + 1], 0] - self.clusters[c[i], 1] != 1:
                     raise ValueError(
                         "".join(
                             [
@@ -394,7 +393,8 @@ class DataClusters:
                         )
                     )
 
-            # update cluster endpoints
+        # update cluster endpoints
+        for c in combine:
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
         todelete = np.concatenate([np.array(c[1:], dtype=int) for c in combine])
         self.clusters = np.delete(self.clusters, todelete, 0)
-- 
2.43.0


From 64ddbae5d73a4e9554a5e7be085d313035ce1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 41/83] fix: cluster_boundaries mixed x with y, and was
 undefined at the first point

---
 src/diffpy/srmise/dataclusters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 01b1e53..133b618 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -460,13 +460,14 @@ class DataClusters:
         """Return sequence with (x,y) of all cluster boundaries."""
         boundaries = []
         for cluster in self.clusters:
-            xlo = np.mean(self.x[cluster[0] - 1 : cluster[0] + 1])
-            ylo = np.mean(self.y[cluster[0] - 1 : cluster[0] + 1])
+            low = max(cluster[0] - 1, 0)
+            xlo = np.mean(self.x[low : cluster[0] + 1])
+            ylo = np.mean(self.y[low : cluster[0] + 1])
             xhi = np.mean(self.x[cluster[1] : cluster[1] + 2])
             yhi = np.mean(self.y[cluster[1] : cluster[1] + 2])
             boundaries.append((xlo, ylo))
             boundaries.append((xhi, yhi))
-        return np.unique(boundaries)
+        return np.unique(boundaries, axis=0)
 
     def plot(self, *args, **kwds):
         """Plot the data with vertical lines at the cluster divisions.
-- 
2.43.0


From 5df3d6fd07b5c00d7b2e079995a694c72ccac976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 42/83] fix: PeakStability.load could not restore results when
 the baseline is a function

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 77e3928..4e902ae 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -60,7 +60,7 @@ class PeakStability:
                 if r[2] is not None:
                     kwds = r[2]
                     if hasattr(bl, "estimate_parameters"):
-                        r[2] = bl.actualize(default_input="internal", **kwds)
+                        r[2] = bl.actualize(in_format="internal", **kwds)
                     else:
                         r[2] = bl.owner().actualize(in_format="internal", **kwds)
         finally:
-- 
2.43.0


From dafe66a1ea6df4fbf3f04c47c5cab5b92a472bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 43/83] fix: loadaics failed to sort the uncertainties

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 91cd34c..b4915a3 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -163,7 +163,7 @@ class MultimodelSelection(PeakStability):
         em = self.ppe.error_method
 
         self.aics = aics_in
-        self.dgs = np.sort(aics_in.keys())
+        self.dgs = np.sort(list(aics_in.keys()))
 
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
-- 
2.43.0


From 753d9eefca7dced4e34f5495d6333e9bee7355f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 44/83] fix: classbestdgs ignored the requested uncertainties

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index b4915a3..8ba3d11 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -544,7 +544,7 @@ class MultimodelSelection(PeakStability):
         if dgs is None:
             dgs = self.dgs
         bestdgs = []
-        for dg in self.dgs:
+        for dg in dgs:
             if self.sortedclassprobs[dg][-1] == cls:
                 bestdgs.append(dg)
         return bestdgs
-- 
2.43.0


From d86e9a11d8a4c780d29384659e80d6745b699a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 45/83] fix: MultimodelSelection.get did not recognize 'dG'

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 8ba3d11..7b859de 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -918,7 +918,7 @@ class MultimodelSelection(PeakStability):
         fdict = {
             "aic": self.get_aic,
             "class": self.get_class,
-            "dg": lambda x: x,
+            "dG": lambda x, **kwds: x,
             "model": self.get_model,
             "nfree": self.get_nfree,
             "prob": self.get_prob,
-- 
2.43.0


From 69a4b1847322ee9372c2dd5e6d423e9ff3be2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 46/83] fix: classify put models with peaks at different
 positions in the same class

---
 src/diffpy/srmise/multimodelselection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 7b859de..8f02a30 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -393,7 +393,7 @@ class MultimodelSelection(PeakStability):
 
                 # check peak values
                 for p, ep in zip(psqval, epsqval[c]):
-                    basediff = np.abs(np.sum(p - ep))
+                    basediff = np.sum(np.abs(p - ep))
                     # if basediff > tolerance*np.sum(ep):
                     if basediff > tolerance * np.sum(ep) or basediff > tolerance * np.sum(p):
                         badpeak = True
@@ -402,7 +402,7 @@ class MultimodelSelection(PeakStability):
                     continue
 
                 # check baseline values
-                basediff = np.abs(np.sum(bsqval - ebsqval[c]))
+                basediff = np.sum(np.abs(bsqval - ebsqval[c]))
                 # if basediff > tolerance*np.sum(ebsqval[c]):
                 if basediff > tolerance * np.sum(ebsqval[c]) or basediff > tolerance * np.sum(bsqval):
                     continue
-- 
2.43.0


From 8a29b6291d8fd16f95aa620794d166f1a194b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 47/83] fix: plots of class probabilities, and animations,
 failed with current matplotlib

---
 src/diffpy/srmise/multimodelselection.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 8f02a30..16e836e 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -236,15 +236,15 @@ class MultimodelSelection(PeakStability):
         for dg in self.dgs[1:]:
             plt.ioff()
             line.set_ydata(self.aicprobs[dg])
-            vline.set_xdata(dg)
+            vline.set_xdata([dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
                 s = slice(0, len(self.ppe.extracted.model))
                 self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
-            dot.set_xdata(self.dgs[best_idx])
-            dot.set_ydata(self.aicprobs[dg][best_idx])
+            dot.set_xdata([self.dgs[best_idx]])
+            dot.set_ydata([self.aicprobs[dg][best_idx]])
             plt.ion()
             plt.draw()
             if step:
@@ -318,8 +318,8 @@ class MultimodelSelection(PeakStability):
                 [r, res] = tempcluster.plottable_residual()
                 plt.plot(*val)
                 plt.plot(r, minval - np.max(res) + res)
-            dot.set_xdata(bestclass_idx)
-            dot.set_ydata(self.classprobs[dg][bestclass_idx])
+            dot.set_xdata([bestclass_idx])
+            dot.set_ydata([self.classprobs[dg][bestclass_idx]])
             plt.ion()
             plt.draw()
             if step:
@@ -612,7 +612,7 @@ class MultimodelSelection(PeakStability):
         "cbaxis" - The colorbar axis, if it exists.
         "cb" - The colorbar, if it exists.
         """
-        from matplotlib import cm, colorbar, colors
+        from matplotlib import colorbar, colors
         from matplotlib.collections import PolyCollection
 
         fig = kwds.pop("figure", plt.gcf())
@@ -627,8 +627,8 @@ class MultimodelSelection(PeakStability):
         probfilter = kwds.pop("probfilter", [0.0, 1.0])
         class_size = kwds.pop("class_size", "number")
         norm = kwds.pop("norm", "auto")
-        cmap = kwds.pop("cmap", cm.get_cmap("jet"))
-        highlight_cmap = kwds.pop("highlight_cmap", cm.get_cmap("gray"))
+        cmap = kwds.pop("cmap", plt.get_cmap("jet"))
+        highlight_cmap = kwds.pop("highlight_cmap", plt.get_cmap("gray"))
         title = kwds.pop("title", True)
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
@@ -646,7 +646,7 @@ class MultimodelSelection(PeakStability):
                     (xs[0], 0),
                     (xs[-1], 0),
                 )  # points to close the vertices
-                verts.append(np.concatenate([[p0], zip(xs, ys), [p1], [p0]]))
+                verts.append(np.concatenate([[p0], list(zip(xs, ys)), [p1], [p0]]))
                 zlabels.append(i)
 
         #  Define face colors
@@ -692,7 +692,7 @@ class MultimodelSelection(PeakStability):
         for dG, ci in zip(highlight, color_idx):
             for z_logical, z_plot in zip(zlabels, zs):
                 ax.plot(
-                    [dG, dG],
+                    [dG * scale, dG * scale],
                     [z_plot, z_plot],
                     [0, self.classprobs[dG][z_logical]],
                     color=highlight_cmap(ci),
-- 
2.43.0


From 1c5a67e36a3f6bcef000c5533947c69ba0191ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 48/83] fix: command line options --pf and --me failed with
 NameError

---
 src/diffpy/srmise/applications/extract.py | 33 +++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 3dd4eaa..ac7d49a 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -33,6 +33,27 @@ def _baseline_namespace():
     }
 
 
+def _peak_namespace():
+    """Return the peak functions supported by the CLI."""
+    from diffpy.srmise.peaks.gaussian import Gaussian
+    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
+    from diffpy.srmise.peaks.terminationripples import TerminationRipples
+
+    return {
+        "Gaussian": Gaussian,
+        "GaussianOverR": GaussianOverR,
+        "TerminationRipples": TerminationRipples,
+    }
+
+
+def _modelevaluator_namespace():
+    """Return the model evaluators supported by the CLI."""
+    from diffpy.srmise.modelevaluators.aic import AIC
+    from diffpy.srmise.modelevaluators.aicc import AICc
+
+    return {"AIC": AIC, "AICc": AICc}
+
+
 def main():
     """Default SrMise entry-point."""
     usage = (
@@ -447,7 +468,11 @@ def main():
 
     if options.peakfunction:
         try:
-            options.peakfunction = eval("peaks." + options.peakfunction)
+            options.peakfunction = eval(
+                options.peakfunction,
+                {"__builtins__": {}},
+                _peak_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
@@ -463,7 +488,11 @@ def main():
 
     if options.modelevaluator:
         try:
-            options.modelevaluator = eval("modelevaluators." + options.modelevaluator)
+            options.modelevaluator = eval(
+                options.modelevaluator,
+                {"__builtins__": {}},
+                _modelevaluator_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
-- 
2.43.0


From f82c155f6c6ee69525ed311ff39763f75bb208f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 49/83] fix: --dg-mode=ptp-fraction failed since numpy 2
 removed ndarray.ptp

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index ac7d49a..b0bcf90 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -591,7 +591,7 @@ def main():
         elif options.dg_mode == "max-fraction":
             pdict["effective_dy"] = options.dg * ext.y.max() * np.ones(len(ext.x))
         elif options.dg_mode == "ptp-fraction":
-            pdict["effective_dy"] = options.dg * ext.y.ptp() * np.ones(len(ext.y))
+            pdict["effective_dy"] = options.dg * np.ptp(ext.y) * np.ones(len(ext.y))
         elif options.dg_mode == "dG-fraction":
             pdict["effective_dy"] = options.dg * ext.dy
         if options.rng:
-- 
2.43.0


From d47918fe16301b96d26c55e50503b56b00441ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 50/83] fix: command line options --no-nyquist and --no-scale
 had no effect

---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index b0bcf90..768b0d0 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -598,11 +598,11 @@ def main():
             pdict["rng"] = list(options.rng)
         if options.qmax:
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
-        if options.nyquist:
+        if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
         if options.supersample:
             pdict["supersample"] = options.supersample
-        if options.scale:
+        if options.scale is not None:
             pdict["scale"] = options.scale
         if options.modelevaluator:
             pdict["error_method"] = options.modelevaluator
-- 
2.43.0


From a55ec0a85f2754a5eb6462f83c4a204d0b28d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 51/83] fix: --bseq was ignored, since baselines without
 parameters are false

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 768b0d0..daad616 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -573,7 +573,7 @@ def main():
         pdict = {}
         if options.peakfunction:
             pdict["pf"] = [options.peakfunction]
-        if options.baseline:
+        if options.baseline is not None:
             pdict["baseline"] = options.baseline
         if options.cres:
             pdict["cres"] = options.cres
-- 
2.43.0


From 1c3a21219e05a2f9bda6a995031baa35becf33f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 52/83] fix: the default uncertainty was zero for PDFs which
 report none

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index daad616..064a914 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -580,7 +580,7 @@ def main():
         if options.dg_mode is None:
             if options.dg:
                 options.dg_mode = "absolute"
-            elif ext.dy is None:
+            elif not np.all(ext.dy > 0):
                 options.dg_mode = "max-fraction"
             else:
                 options.dg_mode = "dG-fraction"
-- 
2.43.0


From 7808003a2264944191ab821946eb56c3c1178419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 53/83] fix: distances to compare could not be read from file

---
 src/diffpy/srmise/applications/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index b4d28c0..bc2893f 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -560,7 +560,8 @@ def readcompare(filename):
     """
     # TODO: Make this safer
     try:
-        datastring = open(filename, "rb").read()
+        with open(filename) as f:
+            datastring = f.read()
     except Exception as err:
         raise err
 
@@ -568,7 +569,7 @@ def readcompare(filename):
 
     res = re.search(r"^[^#]", datastring, re.M)
     if res:
-        datastring = datastring[res.end() :].strip()
+        datastring = datastring[res.start() :].strip()
 
     distances = []
 
@@ -577,6 +578,7 @@ def readcompare(filename):
             distances.append(float(line))
     except (ValueError, IndexError):
         print("Could not read distances from '%s'. Ignoring file." % filename)
+        return None
 
     if len(distances) == 0:
         return None
-- 
2.43.0


From 6582e952b7df97db8f0a0f3e2350923a712a7525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 54/83] fix: PDF files which are not text raised
 UnicodeDecodeError instead of SrMiseFileError

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3965fe3..520e9c8 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -206,7 +206,7 @@ class PDFDataSet(PDFComponent):
             with open(filename, "rb") as file:
                 file_content = file.read().decode("utf-8")
             self.readStr(file_content)
-        except PDFDataFormatError as err:
+        except (PDFDataFormatError, UnicodeDecodeError) as err:
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
                 basename,
-- 
2.43.0


From b079db01c43fbd0c00d188481febb09d18410e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 55/83] fix: the current extraction shared peaks with the
 stored results, so animate_probs corrupted them

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 src/diffpy/srmise/peakstability.py       | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 16e836e..61dfe9e 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -240,7 +240,7 @@ class MultimodelSelection(PeakStability):
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
                 s = slice(0, len(self.ppe.extracted.model))
-                self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
+                self.ppe.extracted.replacepeaks(self.results[best_idx][1].copy(), s)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
             dot.set_xdata([self.dgs[best_idx]])
diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 4e902ae..5475669 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -145,9 +145,10 @@ class PeakStability:
             result = self.results[idx]
             self.ppe.setvars(quiet=True, effective_dy=result[0] * np.ones(len(self.ppe.x)))
             (r, y, dr, dy) = self.ppe.resampledata(result[3])
+            # Copies, so changes to the current extraction leave the results alone.
             self.ppe.extracted = ModelCluster(
-                result[1],
-                result[2],
+                result[1].copy(),
+                None if result[2] is None else result[2].copy(),
                 r,
                 y,
                 dy,
@@ -213,7 +214,8 @@ class PeakStability:
             dr = (self.ppe.extracted.r_cluster[-1] - self.ppe.extracted.r_cluster[0]) / (
                 len(self.ppe.extracted.r_cluster) - 1
             )
-            self.results.append([e, self.ppe.extracted.model, self.ppe.extracted.baseline, dr])
+            bl = self.ppe.extracted.baseline
+            self.results.append([e, self.ppe.extracted.model.copy(), None if bl is None else bl.copy(), dr])
 
         for e, r, bl, dr in self.results:
             print("---- Results for uncertainty %s ----" % e)
-- 
2.43.0


From 64d03eafb060ee601f040cbda4b142083bd504b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 56/83] fix: parameters given as integers were truncated by
 conversions and by fits

---
 src/diffpy/srmise/modelparts.py          | 2 +-
 src/diffpy/srmise/peaks/gaussian.py      | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 4f9fba5..63dbb5b 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -533,7 +533,7 @@ class ModelPart(object):
         if len(pars) != owner.npars:
             emsg = "The length of pars must equal the number of parameters " + "specified by the model part owner."
             raise ValueError(emsg)
-        self.pars = np.array(pars[:])  # pars[:] in case pars is a ModelPart
+        self.pars = np.array(pars[:], dtype=float)  # pars[:] in case pars is a ModelPart
 
         if free is None:
             self.free = np.array([True for p in pars], dtype=bool)
diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index f268e11..7b493f0 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -388,7 +388,7 @@ class Gaussian(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index 029af53..d7f9a86 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -401,7 +401,7 @@ class GaussianOverR(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
-- 
2.43.0


From ae321ad5c04e51b8604b13fc6747373e05d3a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 57/83] fix: peaks of maximum width were rejected as too wide
 because of rounding errors

---
 src/diffpy/srmise/peaks/gaussian.py      | 9 +++++----
 src/diffpy/srmise/peaks/gaussianoverr.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 7b493f0..854a38c 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -389,6 +389,7 @@ class Gaussian(PeakFunction):
             The transformed parameters in the `out_format`.
         """
         temp = np.array(pars, dtype=float)
+        eps = 1e-12  # the maximum width may be exceeded by rounding errors
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
@@ -407,22 +408,22 @@ class Gaussian(PeakFunction):
                 temp[1] = np.pi * n - temp[1]
             temp[2] = np.abs(temp[2])  # map negative area to equivalent positive one
         elif in_format == "pwa":
-            if temp[1] > self.maxwidth:
+            if temp[1] > self.maxwidth * (1 + eps):
                 emsg = "Width %s (FWHM) greater than maximum allowed width %s" % (
                     temp[1],
                     self.maxwidth,
                 )
                 raise SrMiseTransformationError(emsg)
-            temp[1] = np.arcsin(2.0 * temp[1] ** 2 / self.maxwidth**2 - 1.0)
+            temp[1] = np.arcsin(min(2.0 * temp[1] ** 2 / self.maxwidth**2 - 1.0, 1.0))
         elif in_format == "mu_sigma_area":
             fwhm = temp[1] * self.sigma2fwhm
-            if fwhm > self.maxwidth:
+            if fwhm > self.maxwidth * (1 + eps):
                 emsg = "Width %s (FWHM) greater than maximum allowed width %s" % (
                     fwhm,
                     self.maxwidth,
                 )
                 raise SrMiseTransformationError(emsg)
-            temp[1] = np.arcsin(2.0 * fwhm**2 / self.maxwidth**2 - 1.0)
+            temp[1] = np.arcsin(min(2.0 * fwhm**2 / self.maxwidth**2 - 1.0, 1.0))
         else:
             raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
 
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index d7f9a86..8c970c2 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -402,6 +402,7 @@ class GaussianOverR(PeakFunction):
             The transformed parameters in the `out_format`.
         """
         temp = np.array(pars, dtype=float)
+        eps = 1e-12  # the maximum width may be exceeded by rounding errors
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
@@ -420,22 +421,22 @@ class GaussianOverR(PeakFunction):
                 temp[1] = np.pi * n - temp[1]
             temp[2] = np.abs(temp[2])  # map negative area to equivalent positive one
         elif in_format == "pwa":
-            if temp[1] > self.maxwidth:
+            if temp[1] > self.maxwidth * (1 + eps):
                 emsg = "Width %s (FWHM) greater than maximum allowed width %s" % (
                     temp[1],
                     self.maxwidth,
                 )
                 raise SrMiseTransformationError(emsg)
-            temp[1] = np.arcsin(2.0 * temp[1] ** 2 / self.maxwidth**2 - 1.0)
+            temp[1] = np.arcsin(min(2.0 * temp[1] ** 2 / self.maxwidth**2 - 1.0, 1.0))
         elif in_format == "mu_sigma_area":
             fwhm = temp[1] * self.sigma2fwhm
-            if fwhm > self.maxwidth:
+            if fwhm > self.maxwidth * (1 + eps):
                 emsg = "Width %s (FWHM) greater than maximum allowed width %s" % (
                     fwhm,
                     self.maxwidth,
                 )
                 raise SrMiseTransformationError(emsg)
-            temp[1] = np.arcsin(2.0 * fwhm**2 / self.maxwidth**2 - 1.0)
+            temp[1] = np.arcsin(min(2.0 * fwhm**2 / self.maxwidth**2 - 1.0, 1.0))
         else:
             raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
 
-- 
2.43.0


From 579135c7932126c6616a3149b9395158571e4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 58/83] fix: ModelCovariance.transform raised IndexError for
 parts without parameters

---
 src/diffpy/srmise/modelcluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 7e88ce2..0ec12ad 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -192,9 +192,11 @@ class ModelCovariance(object):
         g = np.identity(self.cov.shape[0])
 
         for i in parts:
+            p = self.model[i]
+            if p.npars(True) == 0:
+                continue
             start = self.mmap[i][0]
             stop = self.mmap[i][-1] + 1
-            p = self.model[i]
             # Parameters and covariance are transformed together or not at all.
             try:
                 subg = p.owner().transform_derivatives(p.pars, in_format, out_format)
-- 
2.43.0


From c4f1913faae229b7813c1fdf7b5d08e4f45ba679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 59/83] fix: covariances kept the signs of parameters that the
 fit had made canonical

---
 src/diffpy/srmise/basefunction.py            |  5 +++-
 src/diffpy/srmise/baselines/nanospherical.py | 24 ++++++++++++++++++++
 src/diffpy/srmise/modelparts.py              |  8 +++----
 src/diffpy/srmise/peaks/gaussian.py          |  9 +++++++-
 src/diffpy/srmise/peaks/gaussianoverr.py     |  9 +++++++-
 5 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index dbb0328..fb2b591 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -283,7 +283,10 @@ class BaseFunction(object):
         if out_format not in self.parformats:
             raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
         if in_format == out_format:
-            return np.identity(self.npars)
+            try:
+                return self._transform_derivativesraw(pars, in_format=in_format, out_format=out_format)
+            except NotImplementedError:
+                return np.identity(self.npars)
         return self._transform_derivativesraw(pars, in_format=in_format, out_format=out_format)
 
     def transform_parameters(self, pars, in_format=None, out_format=None):
diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index 0e2a02e..24c09a9 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -184,6 +184,30 @@ class NanoSpherical(BaselineFunction):
         sign = np.sign(pars[1])
         return sign * s * (3 * r**2 * (r**2 - 4 * R**2)) / (16 * R**4)
 
+    def _transform_derivativesraw(self, pars, in_format, out_format):
+        """Return gradient matrix for the pars converted from in_format to out_format.
+
+        Parameters
+        ----------
+        pars : array-like
+            The sequence of parameters
+        in_format : str
+            The format defined for this class
+        out_format : str
+            The format defined for this class
+
+        Defined Formats
+        ---------------
+        internal - [scale, radius]
+
+        Returns
+        -------
+        array-like
+            The gradient matrix.
+        """
+        # Scale and radius are mapped to their positive equivalents
+        return np.diag([-1.0 if p < 0 else 1.0 for p in pars])
+
     def _transform_parametersraw(self, pars, in_format, out_format):
         """Convert parameter values from in_format to out_format.
 
diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 63dbb5b..c0f2e72 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -201,10 +201,6 @@ class ModelParts(list):
             emsg = "Fit did not succeed -- " + str(f[3])
             raise SrMiseFitError(emsg)
 
-        # clean up parameters
-        for p in self:
-            p.pars = p.owner().transform_parameters(p.pars, in_format="internal", out_format="internal")
-
         # Supply estimated covariance matrix if requested.
         # The precise relationship between f[1] and estimated covariance matrix is a little unclear from
         # the documentation of leastsq.  This is the interpretation given by scipy.optimize.curve_fit,
@@ -223,6 +219,10 @@ class ModelParts(list):
             except SrMiseUndefinedCovarianceError:
                 logger.warning("Covariance not defined.  Fit may not have converged.")
 
+        # clean up parameters (last, since the covariance is that of the parameters as they were fit)
+        for p in self:
+            p.pars = p.owner().transform_parameters(p.pars, in_format="internal", out_format="internal")
+
         return
 
     # # Notes on the fit f
diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 854a38c..8dc1495 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -329,8 +329,15 @@ class Gaussian(PeakFunction):
         # exception of the element at [1,1].
         g = np.identity(self.npars)
 
+        if in_format == "internal":
+            # Internal parameters need not be canonical (see _transform_parametersraw),
+            # and width and area may increase when the canonical ones decrease.
+            if out_format == "internal":
+                g[1, 1] = -1.0 if np.cos(pars[1]) < 0 else 1.0
+            g[2, 2] = -1.0 if pars[2] < 0 else 1.0
+
         if in_format == out_format:
-            return
+            return g
 
         if in_format == "internal":
             if out_format == "pwa":
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index 8c970c2..4e82ac2 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -341,8 +341,15 @@ class GaussianOverR(PeakFunction):
         # exception of the element at [1,1].
         g = np.identity(self.npars)
 
+        if in_format == "internal":
+            # Internal parameters need not be canonical (see _transform_parametersraw),
+            # and width and area may increase when the canonical ones decrease.
+            if out_format == "internal":
+                g[1, 1] = -1.0 if np.cos(pars[1]) < 0 else 1.0
+            g[2, 2] = -1.0 if pars[2] < 0 else 1.0
+
         if in_format == out_format:
-            return
+            return g
 
         if in_format == "internal":
             if out_format == "pwa":
-- 
2.43.0


From f50b927e343bac4f1d4a6c4bb84d818053d73844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 60/83] fix: combine_clusters corrupted the clusters when asked
 for one that does not exist

---
 src/diffpy/srmise/dataclusters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 133b618..c570cb9 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -364,6 +364,8 @@ class DataClusters:
         combine_flat = np.concatenate([np.ravel(c) for c in combine])
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
+        if np.any(combine_flat < 0) or np.any(combine_flat >= len(self.clusters)):
+            raise ValueError("Cannot combine clusters that do not exist.")
 
         for c in combine:
             # Test that all clusters are contiguous and adjacent
-- 
2.43.0


From cbe4ab7bd799ff23ca46e74d4820c69a47b7b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 61/83] fix: joined clusters preferred a peak function chosen
 by memory address

join_adjacent formed the union of the peak functions with sets, whose order
depends on where the functions are in memory, and later estimates use the
first one.  With several peak functions equal extractions gave different
results.
---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 0ec12ad..8405f1d 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -876,7 +876,8 @@ class ModelCluster(object):
         else:  # Only m2 has entries, or both are empty
             new_model = m2.model.copy()
 
-        peak_funcs = list(set(m1.peak_funcs) | set(m2.peak_funcs))  # "Union"
+        # "Union", in the order of preference of m1
+        peak_funcs = list(m1.peak_funcs) + [f for f in m2.peak_funcs if f not in m1.peak_funcs]
         return ModelCluster(
             new_model,
             m1.baseline,
-- 
2.43.0


From 04f4be68579bc9013ac7a506bfb100682bcb165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 62/83] fix: initial peaks that explain the data within the
 uncertainty were never fitted

ModelCluster.addexternalpeaks adds peaks and their value to the data but kept
the flag that the data never rise above the uncertainty, so that the final fit
of an extraction was skipped and its covariance left undefined.
---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 8405f1d..35b367b 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -534,6 +534,10 @@ class ModelCluster(object):
         self.y_data += peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
 
+        # The data with the peaks may rise above the error threshold.
+        if self.never_fit:
+            self.never_fit = max(self.y_cluster - self.valuebl() - self.error_cluster) < 0
+
     def writestr(self, **kwds):
         """Return partial string representation.
 
-- 
2.43.0


From 79a59a922a01d81b25278d333084c86cb9de1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 63/83] fix: errors from damaged model cluster text could not
 be printed

SrMiseDataFormatError was given the exception instead of its text, so that
str() of it, and PeakExtraction.read, raised TypeError.
---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 35b367b..d267689 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -775,7 +775,7 @@ class ModelCluster(object):
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-            raise SrMiseDataFormatError(err)
+            raise SrMiseDataFormatError(str(err))
         if hasr:
             r_data = np.array(r_data)
         if hasy:
-- 
2.43.0


From 222463aade431a815847727eae36c213615f9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 64/83] fix: termination ripples evaluated their base function
 at r=0

The grid is extended to the left down to zero.  Where zero is a multiple of
the spacing away, rounding put the extension on r=0 or within rounding of it,
and all values of ripples over GaussianOverR became nan or huge.
---
 src/diffpy/srmise/peaks/terminationripples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index d3b5b12..3a21668 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -396,7 +396,8 @@ class TerminationRipples(PeakFunction):
             The extended r, slice giving original range.
         """
         ext = self.extension * 2 * np.pi / self.qmax
-        left_ext = np.arange(r[0] - dr, max(0.0, r[0] - ext - dr), -dr)[::-1]
+        # Stay clear of r=0, where base functions such as GaussianOverR diverge.
+        left_ext = np.arange(r[0] - dr, max(0.5 * dr, r[0] - ext - dr), -dr)[::-1]
         right_ext = np.arange(r[-1] + dr, r[-1] + ext + dr, dr)
         ext_r = np.concatenate((left_ext, r, right_ext))
         ext_slice = slice(len(left_ext), len(ext_r) - len(right_ext))
-- 
2.43.0


From ea6743cf387eec300e6f98d67f73c7d16cef129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 65/83] fix: scaling a broad Gaussian over r near the origin
 moved its maximum

A width of sigma >= rmax turns the stationary point at rmax into a minimum, so
no peak with the requested value and the same maximum exists.
---
 src/diffpy/srmise/peaks/gaussianoverr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index 4e82ac2..7cb1fc4 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -244,7 +244,8 @@ class GaussianOverR(PeakFunction):
             / np.exp(-((rmax - mu2) ** 2) / (2 * sigma2**2))
         )
 
-        if not (np.all(np.isfinite([mu2, sigma2, area2])) and sigma2 > 0 and area2 > 0):
+        # with sigma2 >= rmax the peak found has its minimum, not its maximum, at rmax
+        if not (np.all(np.isfinite([mu2, sigma2, area2])) and 0 < sigma2 < rmax and area2 > 0):
             emsg = "No peak with the same maximum has its value at %s scaled by %s." % (x, scale)
             raise SrMiseScalingError(emsg)
 
-- 
2.43.0


From 250ea5945631c34f99a242a2ee1319f9067d13f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 66/83] fix: loading a saved series without results raised
 IndexError

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 5475669..4f87f67 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -66,7 +66,7 @@ class PeakStability:
         finally:
             in_s.close()
 
-        self.setcurrent(0)
+        self.setcurrent(0 if self.results else None)
 
     def save(self, filename):
         try:
-- 
2.43.0


From 1fa8cc927326437e65fbc60ac4a67f012d001f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 67/83] fix: animations of probabilities failed for models with
 peaks that may not be removed

---
 src/diffpy/srmise/multimodelselection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 61dfe9e..2a975f8 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -239,8 +239,7 @@ class MultimodelSelection(PeakStability):
             vline.set_xdata([dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
-                s = slice(0, len(self.ppe.extracted.model))
-                self.ppe.extracted.replacepeaks(self.results[best_idx][1].copy(), s)
+                self.setcurrent(best_idx)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
             dot.set_xdata([self.dgs[best_idx]])
@@ -310,8 +309,8 @@ class MultimodelSelection(PeakStability):
             if self.sortedclassprobs[dg][-1] != bestclass_idx:
                 bestclass_idx = self.sortedclassprobs[dg][-1]
                 best_idx = self.sortedclasses[dg][bestclass_idx][-1]
-                s = slice(0, len(tempcluster.model))
-                tempcluster.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
+                tempcluster = ModelCluster(self.ppe.extracted)
                 plt.cla()
                 val = tempcluster.plottable()
                 minval = np.min(val[1::2])
-- 
2.43.0


From 7fa10da1b38de4fa7ec9ab99d83feb17af987e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 68/83] fix: adding external peaks to a cluster changed the
 data of its copies

---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index d267689..a5cbca4 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -531,7 +531,8 @@ class ModelCluster(object):
         None
         """
         self.replacepeaks(peaks)
-        self.y_data += peaks.value(self.r_data)
+        # Other clusters may share the data, which should not change for them.
+        self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
 
         # The data with the peaks may rise above the error threshold.
-- 
2.43.0


From 256113823250a96d59080369793a3053a7f63e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 69/83] fix: stored traces changed when the extraction changed
 the peaks of later clusters

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 30a7a6b..9746a3a 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -207,7 +207,7 @@ class TracePeaks(object):
         for m in args:
             clusters.append(m.slice)
         for m in args[1:]:
-            mc.replacepeaks(m.model)
+            mc.replacepeaks(m.model.copy())
         return {
             "mc": mc,
             "clusters": clusters,
-- 
2.43.0


From 9b444f639f40d9f53113e36911607468e667cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 70/83] fix: a file log ignored levels given by name or below
 that of the logger

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 9746a3a..82a1c38 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -88,9 +88,9 @@ def addfilelog(filename, level=defaultlevel, format=defaultformat):
     """
     global fh
     fh = logging.FileHandler(filename)
-    fh.setLevel(level)
     formatter = logging.Formatter(format)
     fh.setFormatter(formatter)
+    setfilelevel(level)
     logger.addHandler(fh)
 
 
-- 
2.43.0


From d29a8e29296d1b4c6fd892555ddf10b57ad7636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 71/83] fix: reading a damaged trace raised errors other than
 those of the package

---
 src/diffpy/srmise/srmiselog.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 82a1c38..e5c0a48 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -274,6 +274,17 @@ class TracePeaks(object):
         "mc" - A ModelCluster instance
         "recursion" - The recursion level of mc
         """
+        try:
+            return self._readstr(datastring)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            # Missing sections, fields, or values which cannot be interpreted.
+            emsg = "Invalid or missing data: %s: %s" % (type(err).__name__, err)
+            raise SrMiseDataFormatError(emsg)
+
+    def _readstr(self, datastring):
+        """Read trace from string, without handling malformed data."""
         # find where the ModelCluster section starts
         res = re.search(r"^#+ ModelCluster\s*(?:#.*\s+)*", datastring, re.M)
         if res:
-- 
2.43.0


From 94f40f25c40c219a5583a6f4c898d2fddc8db31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 72/83] fix: after an extraction failed the records of the next
 one were misnumbered

---
 src/diffpy/srmise/modelcluster.py      |  1 +
 src/diffpy/srmise/pdfpeakextraction.py |  1 +
 src/diffpy/srmise/peakextraction.py    |  1 +
 src/diffpy/srmise/srmiselog.py         | 17 +++++++++++++++++
 4 files changed, 20 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index a5cbca4..16c6791 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1485,6 +1485,7 @@ class ModelCluster(object):
             ]
         )
 
+    @srmiselog.traced
     def prune(self):
         """Remove peaks until model quality no longer improves.
 
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 3744bb8..07799fc 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -331,6 +331,7 @@ class PDFPeakExtraction(PeakExtraction):
         else:
             return 1.0
 
+    @srmiselog.traced
     def extract(self, **kwds):
         """Extract peaks from the PDF. Returns ModelCovariance instance
         summarizing results.
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index e4ab1ca..3b5e0bb 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -831,6 +831,7 @@ class PeakExtraction(object):
             self.initial_peaks.extend(peaks)
             self.initial_peaks.sort(key="position")
 
+    @srmiselog.traced
     def extract_single(self, recursion_depth=1):
         """Find ModelCluster with peaks extracted from data. Return
         ModelCovariance instance at top level.
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index e5c0a48..fbb4679 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -38,6 +38,7 @@ setlevel: Set logging level of default logger.
 gettracer: Get a TracePeaks instance for tracing peak extraction.
 """
 
+import functools
 import logging
 import os.path
 import re
@@ -378,5 +379,21 @@ def settracer(**kwds):
     return tracer
 
 
+def traced(func):
+    """Decorator which restores the level of the tracer if func raises."""
+
+    @functools.wraps(func)
+    def wrapper(*args, **kwds):
+        active = tracer
+        call, recursion = active.call, active.recursion
+        try:
+            return func(*args, **kwds)
+        except BaseException:
+            active.call, active.recursion = call, recursion
+            raise
+
+    return wrapper
+
+
 # Default tracer never emits
 tracer = settracer()
-- 
2.43.0


From a39a5b9f7c3b81e6949d9aa998d1723af538da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 73/83] fix: joined clusters could have peaks which are not
 sorted by position

---
 src/diffpy/srmise/modelcluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 16c6791..7e51aeb 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -876,6 +876,8 @@ class ModelCluster(object):
 
             # Likely to improve any future fitting
             new_model.match_at(border_x, border_y)
+            # Matching may change the position parameter of some peaks.
+            new_model.sort(key="position")
         elif len(m1.model) > 0:
             new_model = m1.model.copy()
         else:  # Only m2 has entries, or both are empty
-- 
2.43.0


From ab9e2e82976987b8e954f6aa6d2a91ffbb89f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:38 +0000
Subject: [PATCH 74/83] fix: positions and series are drawn on the axes that
 were asked for

---
 src/diffpy/srmise/applications/plot.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index bc2893f..c084163 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -79,7 +79,7 @@ def gr_formataxis(ax=None):
 
 
 def comparepositions(ppe, ip=None, **kwds):
-    ax = kwds.get("ax", plt.gca())
+    ax = kwds["ax"] if "ax" in kwds else plt.gca()
     base = kwds.get("base", 0.0)
     yideal = kwds.get("yideal", -1.0)
     yext = kwds.get("yext", 1.0)
@@ -99,17 +99,17 @@ def comparepositions(ppe, ip=None, **kwds):
         xi[1::3] = ip
         yi = np.zeros_like(xi) + base
         yi[1::3] += yideal
-        plt.plot(xi, yi, "b", lw=1.5, **ip_style)
+        ax.plot(xi, yi, "b", lw=1.5, **ip_style)
 
     xe = np.nan + np.zeros(3 * len(ep))
     xe[0::3] = ep
     xe[1::3] = ep
     ye = np.zeros_like(xe) + base
     ye[1::3] += yext
-    plt.plot(xe, ye, "g", lw=1.5, **ep_style)
+    ax.plot(xe, ye, "g", lw=1.5, **ep_style)
 
     if ip is not None:
-        plt.axhline(base, linestyle=":", color="k")
+        ax.axhline(base, linestyle=":", color="k")
         ax.yaxis.set_ticks([base + 0.5 * yideal, base + 0.5 * yext])
         ax.yaxis.set_ticklabels([yideal_label, yext_label])
     else:
@@ -118,9 +118,9 @@ def comparepositions(ppe, ip=None, **kwds):
 
     # Set ylim explicitly, for case where yext is empty.
     if ip is not None:
-        plt.ylim(base + yideal, base + yext)
+        ax.set_ylim(base + yideal, base + yext)
     else:
-        plt.ylim(base, base + yext)
+        ax.set_ylim(base, base + yext)
 
     for tick in ax.yaxis.get_major_ticks():
         tick.tick1line.set_markersize(0)
@@ -135,7 +135,7 @@ def comparepositions(ppe, ip=None, **kwds):
 
 
 def dgseries(stability, **kwds):
-    kwds.get("ax", plt.gca())
+    ax = kwds["ax"] if "ax" in kwds else plt.gca()
     dg_style = kwds.get("dg_style", default_dg_style)
 
     scale = kwds.get("scale", 1.0)
@@ -155,7 +155,7 @@ def dgseries(stability, **kwds):
         peakpos = [p for p in peakpos if p >= pmin and p <= pmax]
         x.extend(peakpos)
         y.extend(np.zeros_like(peakpos) + dg * scale)
-    plt.plot(x, y, **dg_style)
+    ax.plot(x, y, **dg_style)
 
 
 def labelallsubplots():
-- 
2.43.0


From 5552a1ace6019d64b3d14bf90ca8bae842d396a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 75/83] fix: makeplot uses the style given for a series

---
 src/diffpy/srmise/applications/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index c084163..acad503 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -232,7 +232,7 @@ def makeplot(ppe_or_stability, ip=None, **kwds):
     bottom_offset = kwds.get("bottom_offset", 3.0)
 
     # Style options
-    kwds.get("dg_style", default_dg_style)
+    dg_style = kwds.get("dg_style", default_dg_style)
     gobs_style = kwds.get("gobs_style", default_gobs_style)
     gfit_style = kwds.get("gfit_style", default_gfit_style)
     gind_style = kwds.get("gind_style", default_gind_style)
@@ -441,7 +441,7 @@ def makeplot(ppe_or_stability, ip=None, **kwds):
             dgkwds["dgmin"] = kwds["dgmin"]
         if "dgmax" in kwds:
             dgkwds["dgmax"] = kwds["dgmax"]
-        dgseries(stability, base=0, pmin=r[0], pmax=r[-1], **dgkwds)
+        dgseries(stability, base=0, pmin=r[0], pmax=r[-1], dg_style=dg_style, **dgkwds)
         plt.xlim(xlo, xhi)
         ax_dg.xaxis.set_major_locator(plt.NullLocator())
         ax_dg.yaxis.set_major_locator(plt.MaxNLocator(3))
-- 
2.43.0


From 0f801a73308b84ff4c2fcc291c8769756e46b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:31 +0000
Subject: [PATCH 76/83] fix: an extraction option given as zero is taken as
 given

--cres 0 and --supersample 0 were ignored as if not given.
---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 064a914..f2ea1fa 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -575,7 +575,7 @@ def main():
             pdict["pf"] = [options.peakfunction]
         if options.baseline is not None:
             pdict["baseline"] = options.baseline
-        if options.cres:
+        if options.cres is not None:
             pdict["cres"] = options.cres
         if options.dg_mode is None:
             if options.dg:
@@ -600,7 +600,7 @@ def main():
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
         if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
-        if options.supersample:
+        if options.supersample is not None:
             pdict["supersample"] = options.supersample
         if options.scale is not None:
             pdict["scale"] = options.scale
-- 
2.43.0


From 2e3860c145bdbcced9b5d4f3c311890b3cb93e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 77/83] fix: reduce_to compares the whole model with the value
 asked for

The value to match includes the baseline, so with a baseline the model was
scaled up, or not reduced although it should have been.
---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 7e51aeb..15cf8b6 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1265,7 +1265,7 @@ class ModelCluster(object):
             Return ModelEvaluator instance if fit changed, otherwise None.
         """
         # No reduction necessary
-        if self.model.value(x) < y:
+        if self.value(x) < y:
             logger.debug("reduce_to: No reduction necessary.")
             return None
         orig_model = self.model.copy()
-- 
2.43.0


From 23dfb2b4cf3f8b3a9c7ff3eb5624db40daf9578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:00 +0000
Subject: [PATCH 78/83] fix: joining clusters lowers their peaks to the data at
 the border without the baseline

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 15cf8b6..c6b395a 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -875,7 +875,7 @@ class ModelCluster(object):
                         del new_model[i]
 
             # Likely to improve any future fitting
-            new_model.match_at(border_x, border_y)
+            new_model.match_at(border_x, border_y - m1.valuebl(border_x))
             # Matching may change the position parameter of some peaks.
             new_model.sort(key="position")
         elif len(m1.model) > 0:
-- 
2.43.0


From 45dd07ecfb4e25fe6784b5172fc847cf4ca9b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:00 +0000
Subject: [PATCH 79/83] fix: whether to search a residual for further peaks is
 judged by the residual without the baseline

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 3b5e0bb..5b9aa1b 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -1064,7 +1064,7 @@ class PeakExtraction(object):
                     None,
                     None,
                     rec_r,
-                    rec_y,
+                    rec_y - bl.value(rec_r),
                     rec_error,
                     None,
                     self.error_method,
@@ -1237,7 +1237,7 @@ class PeakExtraction(object):
                         None,
                         None,
                         rec_r1,
-                        rec_y1,
+                        rec_y1 - bl.value(rec_r1),
                         rec_error1,
                         None,
                         self.error_method,
@@ -1284,7 +1284,7 @@ class PeakExtraction(object):
                     None,
                     None,
                     rec_r2,
-                    rec_y2,
+                    rec_y2 - bl.value(rec_r2),
                     rec_error2,
                     None,
                     self.error_method,
-- 
2.43.0


From a1ab97831e9faed1ccf5a0ba5fd8a20c376e4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:05 +0000
Subject: [PATCH 80/83] fix: series and qualities saved under Python 2, like
 those of the documentation, could not be loaded

---
 src/diffpy/srmise/multimodelselection.py | 3 ++-
 src/diffpy/srmise/peakstability.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 2a975f8..53f4586 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -157,7 +157,8 @@ class MultimodelSelection(PeakStability):
         except ImportError:
             import pickle
         in_s = open(filename, "rb")
-        aics_in = pickle.load(in_s)
+        # latin1 also reads the arrays of files saved with Python 2
+        aics_in = pickle.load(in_s, encoding="latin1")
         in_s.close()
 
         em = self.ppe.error_method
diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 4f87f67..0e861bc 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -48,7 +48,8 @@ class PeakStability:
 
         in_s = open(filename, "rb")
         try:
-            (self.results, ppestr) = pickle.load(in_s)
+            # latin1 also reads the arrays of files saved with Python 2
+            (self.results, ppestr) = pickle.load(in_s, encoding="latin1")
             self.ppe = PDFPeakExtraction()
             self.ppe.readstr(ppestr)
 
-- 
2.43.0


From 7dfbc45d1ebee581bc6684d9d8f2d74a938069a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:49 +0000
Subject: [PATCH 81/83] fix: covariances of fits that reorder or remove peaks
 were those of other peaks

---
 src/diffpy/srmise/modelcluster.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c6b395a..33ee22a 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -138,6 +138,25 @@ class ModelCovariance(object):
                             rawj += 1
                     rawi += 1
 
+    def selectparts(self, parts):
+        """Keep only the given parts of the model, in the given order.
+
+        Parameters
+        ----------
+        parts : array-like
+            The sequence of indices of model parts to keep.
+        """
+        if self.cov is None:
+            emsg = "Cannot select parts of undefined covariance matrix."
+            raise SrMiseUndefinedCovarianceError(emsg)
+
+        if len(parts) == 0:
+            self.clear()
+            return
+
+        idx = [n for i in parts for n in self.mmap[i]]
+        self.setcovariance(ModelParts([self.model[i] for i in parts]), self.cov[np.ix_(idx, idx)])
+
     def transform(self, in_format, out_format, **kwds):
         """Transform parameters and covariance matrix under specified
         change of variables.
@@ -1093,6 +1112,7 @@ class ModelCluster(object):
         else:
             y_datafit = self.y_data - self.valuebl(self.r_data)
             fmodel = self.model
+        fitted_parts = [id(p) for p in fmodel]
 
         try:
             fmodel.fit(
@@ -1162,6 +1182,15 @@ class ModelCluster(object):
                 self.model = orig_model
                 self.baseline = orig_baseline
                 return None
+
+        # Fitting may have changed the order of the peaks, and cleaning may have removed some.
+        if cov is not None and cov.cov is not None:
+            parts = [id(p) for p in self.model]
+            if len(fitted_parts) > len(orig_model):
+                parts.append(id(self.baseline))
+            if parts != fitted_parts:
+                cov.selectparts([fitted_parts.index(p) for p in parts])
+
         return new_qual
 
     def contingent_fit(self, minpoints, growth_threshold):
-- 
2.43.0


From 07e7db8393a46161f15c32ca11f1623c61d7c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:49 +0000
Subject: [PATCH 82/83] fix: covariances of nearly singular fits were nan for
 all parameters, even fixed ones

---
 src/diffpy/srmise/modelparts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index c0f2e72..0286d85 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -209,8 +209,8 @@ class ModelParts(list):
             pcov = f[1]
             fvec = f[2]["fvec"]
             dof = npoints - len(freepars)
-            if pcov is None:
-                # leastsq() found a singular matrix, so there is no estimate
+            if pcov is None or not np.all(np.isfinite(pcov)):
+                # leastsq() found a matrix that is singular, or as good as, so there is no estimate
                 cov.clear()
             else:
                 cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
-- 
2.43.0


From d7f824793c017ebf162e70d3cef6e49a9b0c34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:02 +0000
Subject: [PATCH 83/83] fix: metadata sections of PDF files with Windows line
 ends were ignored

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 520e9c8..4cd3f84 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -249,7 +249,7 @@ class PDFDataSet(PDFComponent):
 
         # find where the metadata starts
         metadata = ""
-        res = re.search(r"^#+ +metadata\b\n", header, re.M)
+        res = re.search(r"^#+ +metadata\b\r?\n", header, re.M)
         if res:
             metadata = header[res.end() :]
             header = header[: res.start()]
-- 
2.43.0

