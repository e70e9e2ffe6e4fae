From a78ebfab463c5825c51ee0040cef20e209f0b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:51 +0000
Subject: [PATCH 01/68] fix: inverse_transform undoes the unit scale that
 transform uses for zero-scale columns

---
 src/direpack/preprocessing/robcent.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index bc6c176..35df0a6 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -58,7 +58,11 @@ from ..utils.utils import (
     _check_input,
 )
 from ._preproc_utilities import *
-from ._preproc_utilities import _check_trimming, wrap_univ
+from ._preproc_utilities import (
+    _check_trimming,
+    _handle_zeros_in_scale,
+    wrap_univ,
+)
 
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
@@ -194,7 +198,10 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             Xs = self.datas_
 
-        return np.multiply(Xs, self.scale_) + self.center_
+        return (
+            np.multiply(Xs, _handle_zeros_in_scale(np.asarray(self.scale_)))
+            + self.center_
+        )
 
 
 # For backwards compatibility
-- 
2.43.0


From 507f45f9bafb3e1c33fe518aceedc3314d176aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:51 +0000
Subject: [PATCH 02/68] fix: scalers process a single case as one row and
 reject a wrong number of columns

---
 src/direpack/preprocessing/robcent.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 35df0a6..cd6b178 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -67,6 +67,23 @@ from ._preproc_utilities import (
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
 
+def _check_new_input(X, center):
+    """
+    Check data to be processed with previously estimated location and scale:
+    a single case remains a row, the number of columns needs to match.
+    """
+
+    X = _check_input(X)
+    p = np.size(center)
+    if p > 1 and X.shape == (p, 1):
+        X = X.reshape((1, -1))
+    if X.shape[1] != p:
+        raise ValueError(
+            "Number of columns needs to match the training data"
+        )
+    return X
+
+
 class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
     """
@@ -157,8 +174,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Center and/or scale training data to pre-estimated location and scale
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_new_input(X, self.center_)
 
         Xs = scale_data(X, self.center_, self.scale_)
         setattr(self, "datas_", Xs)
@@ -171,7 +188,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_new_input(Xn, self.col_loc_)
         Xns = scale_data(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datans_", Xns)
 
@@ -194,7 +211,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         check_is_fitted(self, ["center_", "scale_"])
         if Xs is not None:
-            Xs = _check_input(Xs)
+            Xs = _check_new_input(Xs, self.center_)
         else:
             Xs = self.datas_
 
@@ -301,8 +318,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Project data points to their wrapped counterparts
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_new_input(X, self.center_)
 
         Xw = wrap(X, self.center_, self.scale_)
         setattr(self, "dataw_", Xw)
@@ -315,7 +332,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_new_input(Xn, self.col_loc_)
         Xnw = wrap(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datanw_", Xnw)
 
-- 
2.43.0


From 36c72cd85611db8d6c94d5019127d1060d7359bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:51 +0000
Subject: [PATCH 03/68] fix: wrapping uses the location and scale it is given,
 and survives a zero scale

---
 src/direpack/preprocessing/_preproc_utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 2d60438..f1686db 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -333,11 +333,16 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
     if dd.dtype == "O":
         dd = dd.astype("float")
     if scale:
-        locX = median(dd)
-        scaleX = mad(dd)
+        if locX is None:
+            locX = median(dd)
+        if scaleX is None:
+            scaleX = mad(dd)
+        scaleX = _handle_zeros_in_scale(scaleX)
         xi = (dd - locX) / scaleX
     else:
         xi = np.array(dd)
+        locX = 0 if locX is None else locX
+        scaleX = 1 if scaleX is None else scaleX
     indMid = np.where((np.abs(xi) < c) & (np.abs(xi) >= b))[0]
     indHigh = np.where(np.abs(xi) >= c)[0]
     xi[indMid] = (
-- 
2.43.0


From f33842427f0220574578312bb55cfb132f94621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:51 +0000
Subject: [PATCH 04/68] fix: gen_ss_covmat takes a matrix product and accepts
 radial functions by name

---
 src/direpack/preprocessing/gsspp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index baf33bb..8b895dc 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -151,8 +151,10 @@ def gen_ss_covmat(X,center='kstepLTS',fun=linear_redescending):
     rc = VersatileScaler(center=center, scale='None')
     n,p = X.shape
     Xm = rc.fit_transform(X)
+    if type(fun) is str: 
+        fun = eval(fun)
     Xgss = _gsspp(Xm,p,n,fun=fun)
-    return(Xgss.T*Xgss/n)
+    return(np.matmul(Xgss.T,Xgss)/n)
     
     
 
-- 
2.43.0


From 1108dde467e351485b2576dac9574e67633814dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:51 +0000
Subject: [PATCH 05/68] fix: gen_ss_pp accepts center='None'

---
 src/direpack/preprocessing/gsspp.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 8b895dc..33a95c9 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -103,9 +103,6 @@ def gen_ss_pp(X,center='l1median',fun='linear_redescending'):
     Outputs: the pre-processed data 
     """    
     
-    if type(center) is str: 
-        center = eval(center)
-            
     if type(fun) is str: 
         fun = eval(fun)
     
-- 
2.43.0


From 57c8f85e86641d859d965f547b45cd99eda8ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:51 +0000
Subject: [PATCH 06/68] fix: GenSpatialSignPreProcessor.transform processes the
 data it is given

---
 src/direpack/preprocessing/gsspp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 33a95c9..8e9ebb9 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -75,7 +75,13 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         """
         
         check_is_fitted(self,('gss_','Xm_'))
-        Xgss = np.multiply(self.Xm_,self.gss_)
+        if type(self.fun) is str: 
+            fun = eval(self.fun)
+        else:
+            fun = self.fun
+        Xm = self.centring_.transform(X)
+        n,p = Xm.shape
+        Xgss = _gsspp(Xm,p,n,fun=fun)
         setattr(self,'X_gsspp_',Xgss)
         return(Xgss)
 
-- 
2.43.0


From 4e0a082df41707c1e05fa0fd4502243699bbb405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:25 +0000
Subject: [PATCH 07/68] fix: l1median uses the starting value it is given

---
 src/direpack/preprocessing/_preproc_utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index f1686db..c16dd59 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -182,7 +182,9 @@ def l1median(X, **kwargs):
     optimization options will crash when provided matrix input.
     """
 
-    if "x0" not in kwargs:
+    if "x0" in kwargs:
+        x0 = kwargs.pop("x0")
+    else:
         x0 = median(X)
 
     if type(X) == np.matrix:
-- 
2.43.0


From 6dba9e532be899dacaa1b1acefbd0d9a629a0e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 08/68] fix: radial functions compare distances on the scale on
 which the cut-offs are computed

---
 src/direpack/preprocessing/_gsspp_utils.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/direpack/preprocessing/_gsspp_utils.py b/src/direpack/preprocessing/_gsspp_utils.py
index 173e6ba..ba41bec 100644
--- a/src/direpack/preprocessing/_gsspp_utils.py
+++ b/src/direpack/preprocessing/_gsspp_utils.py
@@ -73,8 +73,7 @@ def ball(dd, p, n):
     
     dWH = np.power(dd,2/3) 
     dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
-    d_hmed = np.power(dWH_hmed,3/2)
-    idx = np.where(dd > d_hmed)[0]
+    idx = np.where(dWH > dWH_hmed)[0]
     xi = np.ones((n,1))
     xi[idx] =  0
     return(xi)
@@ -94,13 +93,9 @@ def shell(dd, p, n) :
     dWH = np.power(dd,2/3) 
     dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     dWH_hmad = np.sort(np.abs(dWH - dWH_hmed),axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
-    cutoff1 = np.power(np.maximum(0, dWH_hmed - dWH_hmad),3/2)
-    cutoff2 = np.power(dWH_hmed + dWH_hmad,3/2)
-    idxlow = np.where(dd < cutoff1)[0] 
-    idxhigh = np.where(dd > cutoff2)[0] 
+    idx = np.where(np.abs(dWH - dWH_hmed) > dWH_hmad)[0] 
     xi = np.ones((n,1))
-    xi[idxlow] = 0
-    xi[idxhigh] = 0
+    xi[idx] = 0
     return(xi)
 
 
@@ -119,9 +114,10 @@ def linear_redescending(dd, p,n):
     dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     dWH_hmad = np.sort(np.abs(dWH - dWH_hmed),axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     d_hmed = dWH_hmed**(3/2)
-    cutoff = (dWH_hmed + 1.4826 * dWH_hmad)**(3/2)
-    idxmid = np.where(np.logical_and(dd > d_hmed,dd <= cutoff))[0]
-    idxhigh = np.where(dd > cutoff)[0]
+    dWH_cutoff = dWH_hmed + 1.4826 * dWH_hmad
+    cutoff = dWH_cutoff**(3/2)
+    idxmid = np.where(np.logical_and(dWH > dWH_hmed,dWH <= dWH_cutoff))[0]
+    idxhigh = np.where(dWH > dWH_cutoff)[0]
     xi = np.ones((n,1))
     xi[idxmid] = 1 - (dd[idxmid,:] - d_hmed) / (cutoff - d_hmed)
     xi[idxhigh] = 0
-- 
2.43.0


From 8e224ee79956391d9bfb2d950974ec10b78f1762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 09/68] fix: Huber and Hampel weights do not depend on the
 order in which entries are overwritten and leave their input alone

---
 src/direpack/sprm/_m_support_functions.py | 26 ++++++++++++-----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 1a13cbc..45e638b 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -15,22 +15,24 @@ def Fair(x, probct, *args):
 
 
 def Huber(x, probct, *args):
-    x[np.where(x <= probct)[0]] = 1
-    x[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
-    return x
+    x = np.array(x, dtype=float)
+    wx = x.copy()
+    wx[x <= probct] = 1
+    wx[x > probct] = probct / abs(x[x > probct])
+    return wx
 
 
 def Hampel(x, probct, hampelb, hampelr):
-    wx = x
-    wx[np.where(x <= probct)[0]] = 1
-    wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
-        x[np.where((x > probct) & (x <= hampelb))[0]]
-    )
-    wx[np.where((x > hampelb) & (x <= hampelr))[0]] = np.divide(
-        probct * (hampelr - (x[np.where((x > hampelb) & (x <= hampelr))[0]])),
-        (hampelr - hampelb) * abs(x[np.where((x > hampelb) & (x <= hampelr))[0]]),
+    x = np.array(x, dtype=float)
+    wx = x.copy()
+    mid = (x > probct) & (x <= hampelb)
+    high = (x > hampelb) & (x <= hampelr)
+    wx[x <= probct] = 1
+    wx[mid] = probct / abs(x[mid])
+    wx[high] = np.divide(
+        probct * (hampelr - x[high]), (hampelr - hampelb) * abs(x[high])
     )
-    wx[np.where(x > hampelr)[0]] = 0
+    wx[x > hampelr] = 0
     return wx
 
 
-- 
2.43.0


From dea1518bff27e82e7746b0f3a0b185f9ae92b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 10/68] fix: robust_loss weights cases by absolute residuals

---
 src/direpack/cross_validation/_cv_support_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 56a7f23..9a6037f 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -53,6 +53,6 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
         y = np.array(y).reshape(-1)
     y = y.astype('float64')
     r = y - ypred
-    w = fun(r,probct,hampelb,hampelr)
+    w = fun(abs(r),probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
     
\ No newline at end of file
-- 
2.43.0


From 9059517237c854adc568624f1697add10d6138f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:22 +0000
Subject: [PATCH 11/68] fix: nanmatdot returns the product, not its transpose

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 4f42933..715e958 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -103,6 +103,6 @@ def nanmatdot(X, Y):
             return nandot(X, Y)
         else:
             product = [[np.nansum(np.multiply(X[i, :], Y[:, j]))
-                        for i in range(p)] for j in range(q)]
+                        for j in range(q)] for i in range(p)]
 
             return np.array(product)
-- 
2.43.0


From ef426812a6239eeeae342a9a707c2a9e69ec0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:44 +0000
Subject: [PATCH 12/68] fix: bias corrected standard deviation is the root of
 the bias corrected variance

---
 src/direpack/dicomo/dicomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 8004edb..c5cf26e 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -235,7 +235,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 self.x_moment_ = xmom
                 
                 if self.mode in ('std','skew','kurt'):
-                    x2mom = trim_mom(x,x,locest,2,trimming,option,False)
+                    x2mom = trim_mom(x,x,locest,2,trimming,option,biascorr and self.mode == 'std')
                     xmom /= (x2mom**num_power) 
                     if biascorr:
                         if self.mode == 'skew':
-- 
2.43.0


From 8d0f564388485f7ac559d9560434bf0452ae9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:16 +0000
Subject: [PATCH 13/68] fix: dicomo.fit leaves the centring setting alone in
 the modes that need the mean

---
 src/direpack/dicomo/dicomo.py | 42 ++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index c5cf26e..93e2eda 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -111,6 +111,8 @@ class dicomo(_BaseComposition,BaseEstimator):
         """
         
         
+        center = self.center
+        
         if 'trimming' not in kwargs:
             trimming = 0
         else:
@@ -148,17 +150,17 @@ class dicomo(_BaseComposition,BaseEstimator):
             mode = 'com'
             order=2
         elif self.mode == 'std':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order=2
             num_power = 0.5
         elif self.mode == 'skew':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 3
             num_power = 1.5
         elif self.mode == 'kurt':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 4
             num_power = 2
@@ -167,7 +169,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 Fisher = kwargs.get('Fisher')
         elif self.mode == 'cos':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -175,7 +177,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'M3':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -183,7 +185,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'cok':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 4
             if 'standardized' not in kwargs:
@@ -217,7 +219,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         if n==0:
             raise(MyException('Please feed data with length > 0'))
             
-        if self.center == 'median':
+        if center == 'median':
             locest = np.median
         else:
             locest = trim_mean
@@ -318,13 +320,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=self.center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=self.center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=self.center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -332,7 +334,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     else:
                         dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric) 
                         bcov_res=Ball.bcov_test(x,y,num_permutations=0)[0]
                         self.moment_ = bcov_res
@@ -340,7 +342,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and self.center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -373,18 +375,18 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 dmx, n1 = distance_matrix_centered(x,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                 
                 # Variance
                 if mode!='com':
                     
-                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         
                     self.x_moment_ = xmom
                     
                     if self.mode in ('std','skew','kurt'):
-                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
                     if mode=='mom':
@@ -404,10 +406,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                     
-                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                     
                     self.co_moment_ = como
                     
@@ -415,14 +417,14 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                         
                     if self.mode in ('cok','cos'):
-                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         x2sd = np.sqrt(x2sd)
-                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         y2sd = np.sqrt(y2sd)
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From 173ff1f8b7c0c8948ec22c8a185474f2b69d8a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:30 +0000
Subject: [PATCH 14/68] fix: distance moments of higher order take powers of
 their arguments without overwriting them

---
 src/direpack/dicomo/_dicomo_utils.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index fae2edf..30dbd18 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -298,14 +298,7 @@ def distance_moment(dmx,dmy,**kwargs):
         corr4bias = 1
         
     if order>2:
-        i = 1
-        while i < iter_stop_1:  
-            dmx *= dmx
-            i += 1
-        i = 1
-        while i < iter_stop_2:  
-            dmy *= dmy
-            i += 1
+        dmx, dmy = np.power(dmx,iter_stop_1), np.power(dmy,iter_stop_2)
         
         
     if center=='mean':
-- 
2.43.0


From 8ff12c04908ee14cb35462c1333bdea356159741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:44 +0000
Subject: [PATCH 15/68] fix: MDDM accepts a single predictor

---
 src/direpack/dicomo/_dicomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index 30dbd18..dffd7c1 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -441,7 +441,7 @@ def MDDM(X,Y):
     
     for i in range(n):
         if(p==1):
-            X_dist = np.abs(X[i]-X)
+            X_dist = np.abs(X[i]-X).reshape(-1,n)
             
         else: 
             X_diff= (( X.T - np.vstack(X[i,:])).T)**2
-- 
2.43.0


From 7b292b2f675a11187c66113f1e91ed21ca921d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:24 +0000
Subject: [PATCH 16/68] fix: ppdire sets the options of robust and quantile
 regression when y is passed by position

---
 src/direpack/ppdire/ppdire.py | 50 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d7ee7b8..5681fc3 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -251,34 +251,34 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             flag = 'two-block'
             y = kwargs.get('y')
                             
-            if 'quantile' not in kwargs:
-                quantile = .5
+        if 'quantile' not in kwargs:
+            quantile = .5
+        else:
+            quantile = kwargs.get('quantile')
+            
+        if self.regopt == 'robust':
+        
+            if 'fun' not in kwargs:
+                fun = 'Hampel'
             else:
-                quantile = kwargs.get('quantile')
-                
-            if self.regopt == 'robust':
+                fun = kwargs.get('fun')
             
-                if 'fun' not in kwargs:
-                    fun = 'Hampel'
-                else:
-                    fun = kwargs.get('fun')
-                
-                if 'probp1' not in kwargs:
-                    probp1 = 0.95
-                else:
-                    probp1 = kwargs.get('probp1')
-                
-                if 'probp2' not in kwargs:
-                    probp2 = 0.975
-                else:
-                    probp2 = kwargs.get('probp2')
-                
-                if 'probp3' not in kwargs:
-                    probp3 = 0.99
-                else:
-                    probp3 = kwargs.get('probp3')
-
+            if 'probp1' not in kwargs:
+                probp1 = 0.95
+            else:
+                probp1 = kwargs.get('probp1')
             
+            if 'probp2' not in kwargs:
+                probp2 = 0.975
+            else:
+                probp2 = kwargs.get('probp2')
+            
+            if 'probp3' not in kwargs:
+                probp3 = 0.99
+            else:
+                probp3 = kwargs.get('probp3')
+
+        
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
-- 
2.43.0


From b305508671e4f95297eddedf0b28336a5b55166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:39 +0000
Subject: [PATCH 17/68] fix: ppdire quantile regression is run on the scaled
 response, as the coefficients are rescaled afterwards

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 5681fc3..f26eb4d 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -676,7 +676,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     linfit.fit(ti,ys)
                     ci = linfit.coef_
                 elif self.regopt == 'quantile':
-                    linfit = QuantReg(y,ti)
+                    linfit = QuantReg(ys,ti)
                     model = linfit.fit(q=quantile)
                     ci = model.params
                 # end regression if
-- 
2.43.0


From e87a3f895372c5923c12d1d2f27c0a0aa129f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:52 +0000
Subject: [PATCH 18/68] fix: ppdire without centring transforms data to one row
 per case

---
 src/direpack/ppdire/ppdire.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index f26eb4d..4b72700 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -356,8 +356,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             sX = centring.col_sca_
         else:
             Xs = X
-            mX = np.zeros((1,p))
-            sX = np.ones((1,p))
+            mX = np.zeros(p)
+            sX = np.ones(p)
 
         fit_arguments = {}
             
@@ -704,8 +704,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 sX = centring.col_sca_
             else:
                 Xs = X0
-                mX = np.zeros((1,p))
-                sX = np.ones((1,p))
+                mX = np.zeros(X0.shape[1])
+                sX = np.ones(X0.shape[1])
         
         bi = bi.astype("float64")
         if flag != 'one-block':            
-- 
2.43.0


From 4e6e964ace416d9c867e5d4f5b2873cc3e163099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:16 +0000
Subject: [PATCH 19/68] fix: a response passed as a data frame keeps one row
 per case

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 715e958..73cb053 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -24,7 +24,7 @@ def convert_X_input(X):
 def convert_y_input(y):
 
     if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
-        y = y.to_numpy().T.astype('float64')
+        y = y.to_numpy().astype('float64')
     return(y)
 
 
-- 
2.43.0


From fedb493d1a5df0102023d07457a734958dcee8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:40 +0000
Subject: [PATCH 20/68] fix: ppdire grid search works on two columns

---
 src/direpack/ppdire/ppdire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 4b72700..cb3e46d 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -447,6 +447,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if optmax != 1:
                 alphamat *= optmax
         
+            alphamat2 = None
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
@@ -493,6 +494,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
+                    Maxobjf[i] = maximo
            
                 elif p>2:
                 
-- 
2.43.0


From df012ae7cf5f2847c48cc5251edcf4d03b5d0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:06 +0000
Subject: [PATCH 21/68] fix: ppdire scaled intercept goes with the scaled
 coefficients

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index cb3e46d..ddac174 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -721,9 +721,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             yfit = np.matmul(X,bi) + intercept
             if not(scale == 'None'):
                 if (self.center == "mean"):
-                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi))
+                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),B_scaled[:,h-1:h]))
                 else:
-                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi)))
+                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),B_scaled[:,h-1:h])))
             else:
                 b0 = intercept
             
-- 
2.43.0


From 9ae4ca257dafe7fa1567ad869d6f44df00994e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:39 +0000
Subject: [PATCH 22/68] fix: ppdire fitted values keep one row per case when
 the data are compressed

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index ddac174..d4e6cdf 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -699,7 +699,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             R = np.matmul(V[:,0:p],R)
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
-            bi = B[:,h-1]
+            bi = B[:,h-1:h]
             if self.center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
-- 
2.43.0


From 025501a8fa933941fa05ba030cd3a21fc2e67327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:06 +0000
Subject: [PATCH 23/68] fix: ppdire reports the explained variance of X

---
 src/direpack/ppdire/ppdire.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d4e6cdf..8a1b044 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -661,6 +661,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 assovec[i] = criteval
                 
 
+            # Explained variance of the X block
+            Xev[i] = nti**2 * np.sum(np.square(pi)) / np.sum(np.square(Xs)) * 100
+
             # Deflation of the datamatrix guaranteeing orthogonality restrictions
             E -= ti*pi.T
  
-- 
2.43.0


From a315684d38a91477c052e66c4d9e42a10bf43b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:35 +0000
Subject: [PATCH 24/68] fix: ppdire with whitening maps the weights back
 through the whitening matrix

---
 src/direpack/ppdire/ppdire.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 8a1b044..7d9da14 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -642,7 +642,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             pi = np.dot(E.T,ti) / (nti**2)
             if self.whiten_data:
                 wi /= np.sqrt((wi**2).sum())
-                wi = K*wi
             wi0 = wi
             wi = np.array(wi)
             if len(W[:,i].shape) == 1:
@@ -669,6 +668,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
  
             # Calculate R-Weights
             R = np.dot(W[:,0:(i+1)],pinv(np.dot(P[:,0:(i+1)].T,W[:,0:(i+1)]),check_finite=False))
+            if self.whiten_data:
+                R = np.sqrt(p)*np.matmul(K,R)
         
             # Execute regression y~T if y is present. Generate regression estimates.
             if flag != 'one-block':
@@ -695,6 +696,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
 
         # endfor; Loop for latent dimensions
 
+        # Weights and rotations of whitened data refer to the original variables
+        if self.whiten_data:
+            W = np.matmul(K,W)
+
         # Re-adjust estimates to original dimensions if data have been compressed 
         if dimensions:
             B = np.matmul(V[:,0:p],B)
-- 
2.43.0


From 008e854d9e245cd9290bbbadc42110c04e354a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:13 +0000
Subject: [PATCH 25/68] fix: grid refinement skips directions that cancel the
 current one instead of failing on an undefined norm

---
 src/direpack/ppdire/_ppdire_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 7095569..341bd10 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -168,16 +168,18 @@ def gridplane_2(X,most,q,div,pi_arguments={},**kwargs):
         if optmax != 1:
             alphamat *= optmax
     alpha1 = alphamat
-    divisor = np.sqrt(1 + 2*np.multiply(alphamat[0,:].reshape(1,-1),alphamat[1,:].reshape(1,-1))*q[0])
-    alpha1 = np.divide(alphamat,np.repeat(divisor,2,0))
+    sqnorm = 1 + 2*np.multiply(alphamat[0,:].reshape(1,-1),alphamat[1,:].reshape(1,-1))*q[0]
+    keep = sqnorm.reshape(-1) > 1e-10 # directions that cancel the current one have no length
+    divisor = np.sqrt(sqnorm[:,keep])
+    alpha1 = np.divide(alphamat[:,keep],np.repeat(divisor,2,0))
     tj = np.dot(X,alpha1)
     
     if pi_arguments['square_pi']:
         meas = [most.fit(tj[:,i],**pi_arguments)**2 
-        for i in np.arange(0,pi_arguments['ndir'])]
+        for i in np.arange(0,alpha1.shape[1])]
     else:
         meas = [most.fit(tj[:,i],**pi_arguments) 
-        for i in np.arange(0,pi_arguments['ndir'])]
+        for i in np.arange(0,alpha1.shape[1])]
 
     maximo = np.max(meas)
     indmax = np.where(meas == maximo)[0]
-- 
2.43.0


From 9c8e3cbf666bebd63eb7675f43f8e2cad7f9742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:38 +0000
Subject: [PATCH 26/68] fix: capi puts each co-moment in its own slot whatever
 options are selected

---
 src/direpack/ppdire/capi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 312faf9..b44401d 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -94,8 +94,9 @@ class capi(_BaseComposition, BaseEstimator):
         for i in range(init_moment_calc, self.max_degree + 1):
             fit_arguments["order"] = i
             self.most.set_params(mode=order_kwargs[i - 2])
-            l = min(i - 1, len(options))
-            for j in options[np.arange(0, l)]:
+            # the covariance has no options, co-moments of order i have i - 1
+            degree_options = [1] if i == 2 else [j for j in options if j < i]
+            for j in degree_options:
                 fit_arguments["option"] = j
                 moments[i - 3 + j + k] = self.most.fit(x, **fit_arguments)
             if i == 3:
-- 
2.43.0


From 27ef6555e0a8e2678f4ac111127e14ae3bb413c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 27/68] fix: rm and snipls keep finite coefficients when a
 scale estimate is zero

---
 src/direpack/sprm/rm.py     | 5 ++++-
 src/direpack/sprm/snipls.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4a2d835..d91f613 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -221,7 +221,10 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         Xrw = np.array(np.multiply(Xs, np.sqrt(WEmat)).astype("float64"))
         scaling.set_params(scale="None")
         Xrw = scaling.fit_transform(Xrw)
-        b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)
+        # zero scales are divided by one when scaling
+        b_rescaled = np.multiply(
+            np.reshape(np.where(sy == 0, 1, sy) / np.where(sX == 0, 1, sX), (p, 1)), b
+        )
         yp_rescaled = np.matmul(X, b_rescaled).reshape(-1)
         if self.centre == "mean":
             intercept = np.mean(y - yp_rescaled)
diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 9092331..f3dfb5d 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -247,7 +247,9 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             R = B
             T = np.empty((n, self.n_components))
             T.fill(0)
-        B_rescaled = np.multiply(np.array(sy / sX).reshape((p, 1)), B)
+        # zero scales are divided by one when scaling
+        B_rescaled = np.multiply(
+            np.array(np.where(sy == 0, 1, sy) / np.where(sX == 0, 1, sX)).reshape((p, 1)), B)
         yp_rescaled = dot(X, B_rescaled)
         if self.centre == "mean":
             intercept = np.nanmean(y - yp_rescaled)
-- 
2.43.0


From 579066c584a9ada5af412dda2c4b964581f37d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 28/68] fix: rm without scaling and with robust centring

---
 src/direpack/sprm/rm.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index d91f613..8f0dd94 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -239,11 +239,6 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                     np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
                 )
         else:
-            if self.centre == "mean":
-                ytil = np.array(np.matmul(X, b)).reshape(-1)
-                intercept = np.mean(y - ytil)
-            else:
-                intercept = np.median(y - ytil)
             b0 = intercept
         r = y - yfit
         setattr(self, "coef_", b_rescaled)
-- 
2.43.0


From d467c67184eabecbeee5ffb17daf038849e7c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:44 +0000
Subject: [PATCH 29/68] fix: rm intercept_scaled_ is estimated from the
 residuals, case by case

---
 src/direpack/sprm/rm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 8f0dd94..a00672d 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -233,10 +233,12 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         yfit = yp_rescaled + intercept
         if self.scale != "None":
             if self.centre == "mean":
-                b0 = np.mean(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                b0 = np.mean(
+                    ys.astype("float64") - np.matmul(Xs.astype("float64"), b).reshape(-1)
+                )
             else:
                 b0 = np.median(
-                    np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                    ys.astype("float64") - np.matmul(Xs.astype("float64"), b).reshape(-1)
                 )
         else:
             b0 = intercept
-- 
2.43.0


From 4382a17a03694aaa8c1c428c73527ecc6868568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 30/68] fix: rm predicts when fitted with copy=False

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index a00672d..63bb19d 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -262,7 +262,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
 
     def predict(self, Xn):
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != self.coef_.shape[0]:
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
-- 
2.43.0


From d853f0f00038289fd12bac88bdec6a1723ec7553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 31/68] fix: rm runs up to maxit iterations, also when maxit is
 one

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 63bb19d..779a7c2 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -174,7 +174,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         rold = 1e-5
         difference = 1
 
-        while (difference > self.tol) & (loops < self.maxit):
+        while (difference > self.tol) & (loops <= self.maxit):
             b = np.linalg.lstsq(Xw, yw, rcond=None)
             b = np.array(b[0]).reshape(-1, 1)
             yp = np.dot(Xs, b).reshape(-1)
-- 
2.43.0


From a34414010d59544c6967232b8a03dd2b43a59901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:04 +0000
Subject: [PATCH 32/68] fix: rm starting weights downweight low responses like
 high ones

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 779a7c2..d2f89c7 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -135,7 +135,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if [self.centre, self.scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
-            wy = (y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
+            wy = abs(y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
         self.probcty_ = norm.ppf(self.probp1)
         if self.start_cutoff_mode == "specific":
             self.probctx_ = chi2.ppf(self.probp1, p)
-- 
2.43.0


From 6c9d30fa3f13d484356ab9145521a582655107a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:44 +0000
Subject: [PATCH 33/68] fix: sprm starting cut-offs specific to X without
 projection on principal components

---
 src/direpack/sprm/sprm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 46345b3..9ea5cbc 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -266,6 +266,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Urc = np.array(U[:, 0:relcomp])
             Us = scaling.fit_transform(Urc)
         else:
+            relcomp = p
             Us = Xs
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-- 
2.43.0


From f41ef750cc429f2d26a8f323d59393d76da517a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 34/68] fix: sprm intercept_scaled_ is estimated from the
 residuals, case by case

---
 src/direpack/sprm/sprm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 9ea5cbc..3e596b8 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -418,11 +418,11 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if self.scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
             else:
                 b0 = np.median(
                     np.array(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
                 )
             # yfit2 = (np.matmul(Xrc.Xs.astype("float64"),b) + b0)*yrc.col_sca + yrc.col_loc
             # already more generally included
-- 
2.43.0


From b339f62aef29082b3b617ddde4c29945acef740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 35/68] fix: sprm runs up to maxit iterations, also when maxit
 is one

---
 src/direpack/sprm/sprm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 3e596b8..91a2fd8 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -326,7 +326,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             "None",
             self.copy,
         )
-        while (difference > self.tol) & (loops < self.maxit):
+        while (difference > self.tol) & (loops <= self.maxit):
             res_snipls.fit(Xw, yw)
             T = np.divide(res_snipls.x_scores_,
                           WEmat[:, 0: (self.n_components)])
-- 
2.43.0


From 0e54f4198b49f09de331946c919d2e9f1f61a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:06 +0000
Subject: [PATCH 36/68] fix: sprm predicts and transforms when fitted with
 copy=False

---
 src/direpack/sprm/sprm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 91a2fd8..f0612d2 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -469,7 +469,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Input data.
         """
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -491,7 +491,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
         """
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -511,7 +511,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         """
         n, p, Xn = _predict_check_input(Xn)
         (n, p) = Xn.shape
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -542,7 +542,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         """
         n, p, Xn = _predict_check_input(Xn)
         (n, p) = Xn.shape
-        if p != self.X.shape[1]:
+        if p != len(self.x_loc_):
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
-- 
2.43.0


From e096bc065873afdfe2363942cebdfad1ef54e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 37/68] fix: snipls and sprm take the column names of the data
 they are fitted to, not those of an earlier fit

---
 src/direpack/sprm/snipls.py | 17 +++++++++--------
 src/direpack/sprm/sprm.py   | 23 ++++++++++++-----------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index f3dfb5d..86900a9 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,18 +112,19 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
@@ -210,10 +211,10 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
             yev[i - 1] = np.nansum(nth ** 2 * (ch ** 2)) / \
                 np.nansum(np.power(y0, 2)) * 100
-            if type(self.columns) == bool:
+            if type(columns) == bool:
                 colret = goodies
             else:
-                colret = self.columns[np.setdiff1d(range(0, p), elimvars)]
+                colret = columns[np.setdiff1d(range(0, p), elimvars)]
             if self.verbose:
                 print(
                     "Variables retained for "
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index f0612d2..a4b818b 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -189,18 +189,19 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise MyException(
                     "Wrong choise of parameters for Hampel function. Use 0<probp1<hampelp2<hampelp3<=1"
                 )
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
         X = _check_input(X)
         y = _check_input(y)
         ny = y.shape[0]
@@ -229,10 +230,10 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
-            if type(self.columns) != bool:
+            if type(columns) != bool:
                 warntext = (
                     "Zero scale variables with indices "
-                    + str(self.columns[zero_scale])
+                    + str(columns[zero_scale])
                     + " detected and removed"
                 )
             else:
@@ -247,8 +248,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = Xs[:, vars_to_keep]
             X = X[:, vars_to_keep]
             sX = sX[vars_to_keep]
-            if type(self.columns) != bool:
-                self.columns = self.columns[vars_to_keep]
+            if type(columns) != bool:
+                columns = columns[vars_to_keep]
             p = len(vars_to_keep)
             if self.n_components > p:
                 raise MyException(
@@ -321,7 +322,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.eta,
             self.n_components,
             self.verbose,
-            self.columns,
+            columns,
             "mean",
             "None",
             self.copy,
-- 
2.43.0


From ceb284e95b3156bc72871b6dd970e110b0ccc066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:18 +0000
Subject: [PATCH 38/68] fix: sprm coefficients when the scale estimate of y is
 zero

---
 src/direpack/sprm/sprm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index a4b818b..2f728f3 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -406,7 +406,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 + str(res_snipls.colret_)
                 + "\n"
             )
-        b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)
+        # a zero scale of y is divided by one when scaling
+        b_rescaled = np.multiply(np.reshape(np.where(sy == 0, 1, sy) / sX, (p, 1)), b)
         yp_rescaled = np.matmul(X, b_rescaled)
         if self.centre == "mean":
             intercept = np.mean(y - yp_rescaled, axis=0)
-- 
2.43.0


From 521bf8729861430f926c18e5ff86afcb001f6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:42 +0000
Subject: [PATCH 39/68] fix: sprm keeps its scale parameter when one fit has to
 fall back on the mad

---
 src/direpack/sprm/sprm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 2f728f3..a302bdd 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -208,13 +208,14 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
 
-        if self.scale == "scaleTau2":
+        scale = self.scale
+        if scale == "scaleTau2":
             if (mad(X) == 0).any():
                 # kstepLTS divides by MAD. Zero MAD leads to nan -> detect zero MAD, scale by MAD and remove zero MAD variable.
-                self.scale = "mad"
+                scale = "mad"
                 warnings.warn("Scale set to `mad`")
 
-        scaling = VersatileScaler(center=self.centre, scale=self.scale)
+        scaling = VersatileScaler(center=self.centre, scale=scale)
         Xs = scaling.fit_transform(X).astype("float64")
         mX = scaling.col_loc_
         sX = scaling.col_sca_
@@ -271,7 +272,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = Xs
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-        if [self.centre, self.scale] == ["median", "mad"]:
+        if [self.centre, scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
             wy = (y - np.median(y, axis=0)) / (
@@ -338,7 +339,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 r = abs(r) / (1.4826 * np.median(abs(r)))
             else:
                 r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))
-            scalet = self.scale
+            scalet = scale
             if scalet == "None":
                 scalingt.set_params(scale="mad")
             dt = scalingt.fit_transform(T)
@@ -417,7 +418,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             intercept = np.median(y - yp_rescaled, axis=0)
         # This median calculation produces slightly different result in R and Py
         yfit = yp_rescaled + intercept
-        if self.scale != "None":
+        if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
                              np.matmul(Xs.astype("float64"), b).reshape(-1))
-- 
2.43.0


From 2d8073453e55fd81b8c96eec5fe5ba2e3b135532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:47 +0000
Subject: [PATCH 40/68] fix: SIR, SAVE and DR use every slice that occurs in
 the data, also when there are fewer or more than n_slices

---
 src/direpack/sudire/_sudire_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 781d1c7..7606d27 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -225,6 +225,7 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
@@ -289,6 +290,7 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     for i in range(n_slices):
         prob.append(len(ydis[ydis == ylabel[i]]) / n)
@@ -360,6 +362,7 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
-- 
2.43.0


From 3f716f02cf13fa418ee9b2703137b53590bf1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 41/68] fix: sudire starting values slice the response by its
 type

---
 src/direpack/sudire/sudire.py | 1657 +++++++++++++++++----------------
 1 file changed, 830 insertions(+), 827 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 62d8474..194158d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -1,827 +1,830 @@
-# -*- coding: utf-8 -*-
-
-import numpy as np
-from scipy.linalg import inv, sqrtm
-import copy
-from sklearn.utils.metaestimators import _BaseComposition
-from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
-from ..preprocessing.robcent import VersatileScaler
-from ._sudire_utils import *
-from scipy.linalg import orth
-import warnings
-import statsmodels.robust.scale as srs
-from scipy.stats import trim_mean
-import dcor as dc
-
-# import Ball
-import statsmodels.api as sm
-import inspect
-from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
-from ..ipopt_temp.jacobian import (
-    FunctionWithApproxJacobianCentral,
-    FunctionWithApproxJacobian,
-)
-from ..dicomo._dicomo_utils import *
-from ..utils.utils import *
-
-
-class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
-
-    """SUDIRE Sufficient Dimension Reduction 
-    
-    The class allows for Sufficient Dimension Reduction using a variety of 
-    methods. If the method requires optimization of a function, 
-    This optimization is done through the Interior Point Optimizer (IPOPT)
-    algorithm. 
-        
-    Parameters
-    ----------
-        sudiremeth: function or class. sudiremeth in this package can also be used, 
-        but user defined functions  can be processed. Built in options are : 
-
-            save : Sliced Average Variance Estimation
-
-            sir  : Slices Inverse Regression
-
-            dr   : Directional Regression 
-
-            iht  : Iterative Hessian Transformations
-
-            dcov-sdr : SDR via Distance Covariance 
-            
-            mdd-sdr : SDR via Martingale Difference Divergence.
-
-            bcov-sdr : SDR via ball covariance
-            
-        n_components : int 
-                      dimension of the central subspace.
-            
-        trimming : float
-                 trimming percentage to be entered as pct/100 
-        
-        optimizer_options : dict 
-                            with options to pass on to the optimizer.Includes: 
-
-        max_iter : int
-                     Maximal number of iterations.
-
-        tol: float
-             relative convergence tolerance
-
-        constr_viol_tol : float
-                        Desired threshold for the constraint violation.
-            
-        optimizer_constraints : dict or list of dicts
-                                 further constraints to be passed on to the 
-                                 optimizer function.
-            
-        optimizer_arguments: dict
-                             extra arguments to be passed to the sudiremeth 
-                             function during optimization.
-        
-        optimizer_start : numpy array
-                         starting value for the optimization.
-        
-        center : str
-             how to center the data. options accepted are options from sprm.preprocessing 
-            
-        center_data : bool 
-                    If True, the data will be centered before the dimension reduction   
-        
-        scale_data : bool
-                    if set to False, convergence to correct optimum  is not a given.
-                    Will throw a warning. 
-            
-        compression : bool
-                     Use internal data compresion step for flat data. 
-        
-        n_slices :  int
-                    The number of slices for SAVE, SIR, DR
-    
-        is_distance_mat : bool 
-                         if the inputed matrices for x and y are distance matrices.
-            
-        dmetric :  str
-                 distance metric used internally. Defaults to 'euclidean'
-        
-        fit_ols :  bool 
-                 if True, an OLS model is fitted after the dimension reduction.
-        
-        copy : bool
-              Whether to make a deep copy of the input data or not. 
-        
-        verbose : bool
-                 Set to True prints the iteration number. 
-        
-        return_scaling_object: bool. 
-                                If True, the scaling object will be return after the 
-                                dimension reduction. 
-
-    Attributes
-    ----------
-    Attributes always provided 
-        -  `x_loadings_`: Estimated basis of the central subspace 
-        -  `x_scores_`: The projected X data. 
-        -  `x_loc_`:  location estimate for X 
-        -  `x_sca_`:  scale estimate for X
-        - ` ols_obj` : fitted OLS objected
-        -  `y_loc_`: y location estimate
-        -  `y_sca_`: y scale estimate
-
-    Attributes created only when corresponding input flags are `True`:
-        -   `whitening_`: whitened data matrix (usually denoted K)
-        -   `scaling_object_`: scaling object from `VersatileScaler`  
-        
-    
-        
-    
-    """
-
-    def __init__(
-        self,
-        sudiremeth="dcov-sdr",
-        n_components=2,
-        trimming=0,
-        optimizer_options={"max_iter": 1000},
-        optimizer_constraints=None,
-        optimizer_arguments=None,
-        optimizer_start=None,
-        center_data=True,
-        center="mean",
-        scale_data=True,
-        whiten_data=False,
-        compression=False,
-        n_slices=6,
-        dmetric="euclidean",
-        fit_ols=True,
-        copy=True,
-        response_type="continuous",
-        verbose=True,
-        return_scaling_object=True,
-    ):
-        # Called arguments
-        self.sudiremeth = sudiremeth
-        self.n_components = n_components
-        self.trimming = trimming
-        self.optimizer_options = optimizer_options
-        self.optimizer_constraints = optimizer_constraints
-        self.optimizer_arguments = optimizer_arguments
-        self.optimizer_start = optimizer_start
-        self.center = center
-        self.center_data = center_data
-        self.scale_data = scale_data
-        self.whiten_data = whiten_data
-        self.compression = compression
-        self.n_slices = n_slices
-        self.dmetric = dmetric
-        self.fit_ols = fit_ols
-        self.copy = copy
-        self.response_type = response_type
-        self.verbose = verbose
-        self.return_scaling_object = return_scaling_object
-
-        # Other global parameters
-        self.licenter = ["mean", "median"]
-        if not (self.center in self.licenter):
-            raise (
-                ValueError(
-                    'Only location estimator classes allowed are: "mean", "median"'
-                )
-            )
-        self.limeths = [
-            "sir",
-            "save",
-            "dr",
-            "dcov-sdr",
-            "bcov-sdr",
-            "mdd-sdr",
-            "phd",
-            "iht",
-        ]
-        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
-            raise (
-                ValueError(
-                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
-                )
-            )
-
-    def fit(self, X, y, *args, **kwargs):
-
-        """
-        Fit a Sufficient Dimension Reduction Model. 
-        
-        Parameters
-        ----------
-                X : matrix or data frame 
-                    Input data of predictors  
-
-                y :  vector or 1D matrix
-                    Response data
-                
-                args or kwargs : 
-                                Further parameters to user defined sudiremeth can be passed here  
-        Returns
-        -------
-            self
-        
-        -------
-        """
-
-        # Collect optional fit arguments
-
-        if "dmetric" not in kwargs:
-            dmetric = "euclidean"
-        else:
-            dmetric = kwargs.get("dmetric")
-        if "biascorr" not in kwargs:
-            biascorr = False
-        else:
-            biascorr = kwargs.get("biascorr")
-        if "flag" not in kwargs:
-            flag = "two-block"
-        else:
-            flag = kwargs.get("flag")
-        if "is_distance_mat" not in kwargs:
-            is_distance_mat = False
-        else:
-            is_distance_mat = kwargs.pop("is_distance_mat")
-        # Initiate some parameters and data frames
-        if self.copy:
-            X0 = copy.deepcopy(X)
-            self.X0 = X0
-        else:
-            X0 = X
-        X = convert_X_input(X0)
-        n, p = X0.shape
-        trimming = self.trimming
-
-        # Check dimensions
-        if self.n_components > min(n, p):
-            raise (
-                MyException(
-                    "number of components cannot exceed number of variables or sample size"
-                )
-            )
-        # Pre-processing adjustment if whitening
-        if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
-            print("All results produced are for whitened data")
-        # Store original X data mean and varcov matrix.
-        varmatx = np.cov(X, rowvar=0)
-        meanx = X.mean(axis=0)
-        N2 = inv(sqrtm(varmatx))
-
-        # Data Compression for flat tables if required
-        if (p > n) and self.compression:
-            V, S, U = np.linalg.svd(X.T, full_matrices=False)
-            X = np.matmul(U.T, np.diag(S))
-            n, p = X.shape
-
-            if (srs.mad(X) == 0).any():
-                warnings.warn(
-                    "Due to low scales in data, compression would induce zero scales."
-                    + "\n"
-                    + "Proceeding without compression."
-                )
-                dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
-            else:
-                dimensions = True
-        else:
-            dimensions = False
-
-            # Centring and scaling
-            # centering :
-        if self.center_data:
-            if self.center != "mean":
-                centring = VersatileScaler(
-                    center=self.center, scale="None", trimming=self.trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                Xs = X - trim_mean(X, self.trimming, axis=0)
-                mX = trim_mean(X, self.trimming, axis=0)
-                sX = np.sqrt(np.diag(varmatx))
-        else:
-            Xs = X0
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
-        if self.scale_data:
-            if self.center == "mean":
-                scale = "std"
-                N2 = inv(sqrtm(varmatx))
-                Xs = np.matmul(Xs, N2)
-            elif (self.center == "median") or (self.center == "l1median"):
-                scale = "mad"
-                centring = VersatileScaler(
-                    center=self.center, scale=scale, trimming=trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                raise (
-                    MyException(
-                        'centering options have to be either "mean", "median", or "l1median"'
-                    )
-                )
-        else:
-            scale = "None"
-            warnings.warn("Without scaling, convergence to optima is not given")
-        # Initiate centring object and scale X data
-
-        if self.whiten_data:
-            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
-            del U
-            K = (V / S)[:, :p]
-            del S
-            Xs = np.matmul(Xs, K)
-            Xs *= np.sqrt(p)
-        # Pre-process y data
-        ny = y.shape[0]
-        y = convert_y_input(y)
-        if len(y.shape) < 2:
-            y = np.array(y).reshape((ny, 1))
-        if ny != n:
-            raise (MyException("X and y number of rows must agree"))
-        # Pre-process y data when available
-        if flag != "one-block":
-            ny = y.shape[0]
-            y = convert_y_input(y)
-            if len(y.shape) < 2:
-                y = np.array(y).reshape((ny, 1))
-            if ny != n:
-                raise (MyException("X and y number of rows must agree"))
-            if self.copy:
-                y0 = copy.deepcopy(y)
-                self.y0 = y0
-            if self.center_data:
-                ys = y  # dont center y
-                my = np.mean(y, axis=0)
-                sy = np.sqrt(np.var(y, axis=0))
-            else:
-                ys = y
-                my = 0
-                sy = 1
-            ys = ys.astype("float64")
-        else:
-            ys = None
-        if self.sudiremeth == "sir":
-            P = SIR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "save":
-            P = SAVE(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "dr":
-            P = DR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        else:  # SDR obtained through optimization of some function
-
-            ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
-                save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    save_start = np.matmul(N2, save_start)
-                sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    sir_start = np.matmul(N2, sir_start)
-                beta_save = orth(save_start)
-                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
-                beta_sir = orth(sir_start)
-                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
-                DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    DR_start = np.matmul(N2, DR_start)
-                beta_DR = orth(DR_start)
-                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
-                if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
-                elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
-                else:
-                    self.optimizer_start = DR_start.flatten(order="F")
-            ## add constraints for the optimization
-            if self.optimizer_constraints is None:
-                const_x = []
-                const_z = []
-                for i in range(0, self.n_components):
-                    for j in range(0, self.n_components):
-                        const_x.append(
-                            {
-                                "type": "eq",
-                                "fun": const_xscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )  # change const2 to const_func
-                        const_z.append(
-                            {
-                                "type": "eq",
-                                "fun": const_zscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )
-                if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
-                else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
-                    Xs,
-                    ys,
-                    self.n_components,
-                    N2,
-                    is_distance_mat,
-                    self.trimming,
-                    self.center,
-                    dmetric,
-                    biascorr,
-                )
-            # perform DCOV-SDR optimization
-            res = minimize_ipopt(
-                dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
-                options=self.optimizer_options,
-            )
-            if self.scale_data:
-                dcov_res = np.matmul(
-                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
-                )
-            else:
-                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
-            if self.sudiremeth == "dcov-sdr":
-                P = dcov_res
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
-                res_ball = minimize_ipopt(
-                    ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
-                res_mdd = minimize_ipopt(
-                    mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
-                opt_res = minimize_ipopt(
-                    self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-        # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
-
-        # Re-adjust estimates to original dimensions if data have been compressed
-        if dimensions:
-            P = np.matmul(V[:, 0:p], P)
-        setattr(self, "x_loadings_", P)
-        setattr(self, "x_scores_", T)
-        setattr(self, "proj_mat_", projMat)
-        if self.whiten_data:
-            setattr(self, "whitening_", K)
-        setattr(self, "x_loc_", mX)
-        setattr(self, "x_sca_", sX)
-        setattr(self, "scaling_", scale)
-        setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
-            setattr(self, "scaling_object_", centring)
-        return self
-
-    def transform(self, Xn, distance_mat=False):
-        """
-        Computes the dimension reduction of the data Xn based on the fitted sudire model.
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                distance_mat : numpy array 
-                                 distance matrix to represent similarity between observations. 
-                
-                args or kwargs: 
-                                Further parameters to user defined sufdiremeth can be passed here  
-        Returns
-        -------
-        transformed_data : numpy array
-                             the dimension reduced data 
-
-         -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        return np.matmul(Xn, self.x_loadings_)
-
-    def predict(self, Xn, is_distance_mat=False):
-        """
-        predicts the response  on new data Xn
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                is_distance_mat : bool 
-                                 if True, Xn is treated as a distance matrix 
-                
-        Returns
-        -------
-        predictions : numpy array 
-                      The predictions from the dimension reduction model
-        -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
-        ys = self.ols_obj_.predict(Xns)
-        return ys
-
-    @classmethod
-    def _get_param_names(cls):
-        """Get parameter names for the estimator"""
-        # fetch the constructor or the original constructor before
-        # deprecation wrapping if any
-        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
-        if init is object.__init__:
-            # No explicit constructor to introspect
-            return []
-        # introspect the constructor arguments to find the model parameters
-        # to represent
-        init_signature = inspect.signature(init)
-        # Consider the constructor parameters excluding 'self'
-        parameters = [
-            p
-            for p in init_signature.parameters.values()
-            if p.name != "self" and p.kind != p.VAR_KEYWORD
-        ]
-        for p in parameters:
-            if p.kind == p.VAR_POSITIONAL:
-                raise RuntimeError(
-                    "scikit-learn estimators should always "
-                    "specify their parameters in the signature"
-                    " of their __init__ (no varargs)."
-                    " %s with constructor %s doesn't "
-                    " follow this convention." % (cls, init_signature)
-                )
-        # Extract and sort argument names excluding 'self'
-        return sorted([p.name for p in parameters])
-
-    def get_params(self, deep=False):
-        """Get parameters for this estimator.
-        Parameters
-        ----------
-        deep : boolean, optional
-            If True, will return the parameters for this estimator and
-            contained subobjects that are estimators.
-        Returns
-        -------
-        params : mapping of string to any
-            Parameter names mapped to their values.
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        out = dict()
-        for key in self._get_param_names():
-            value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
-                deep_items = value.get_params().items()
-                out.update((key + "__" + k, val) for k, val in deep_items)
-            out[key] = value
-        return out
-
-    def set_params(self, **params):
-        """Set the parameters of this estimator.
-        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
-        
-        Returns
-        -------
-        self
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        if not params:
-            # Simple optimization to gain speed (inspect is slow)
-            return self
-        valid_params = self.get_params()
-
-        nested_params = defaultdict(dict)  # grouped by prefix
-        for key, value in params.items():
-            key, delim, sub_key = key.partition("__")
-            if key not in valid_params:
-                raise ValueError(
-                    "Invalid parameter %s for estimator %s. "
-                    "Check the list of available parameters "
-                    "with `estimator.get_params().keys()`." % (key, self)
-                )
-            if delim:
-                nested_params[key][sub_key] = value
-            else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        return self
-
-
-def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
-    """
-    Estimates the dimension of the central subspace using 
-    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
-    
-    Parameters
-    ----------
-
-        sudiremeth : str
-                    the SDR method to use in the estimation.
-
-        X :  numpy array or dataframe
-            Input X data
-
-        Y : vector or 1d matrix
-            Input Y data as 
-
-        B : int 
-            Number of bootstrap replications
-
-        kwargs:
-
-            n_slices: number of slices for SIR/SAVE/DR
-
-            center_data, bool : if the data  should be centered 
-
-            scale_data, bool :  if the data should be scaled
-
-            center, string :   which centering('mean', 'median')
-            
-    Returns
-    ----------     
-
-    h : int 
-        representing the dimension of the central subspace
-
-    ----------
-    """
-    if "n_slices" not in kwargs:
-        n_slices = 6
-    else:
-        n_slices = kwargs.pop("n_slices")
-    if "center_data" not in kwargs:
-        center_data = True
-    else:
-        center_data = kwargs.pop("center_data")
-    if "scale_data" not in kwargs:
-        scale_data = True
-    else:
-        scale_data = kwargs.pop("scale_data")
-    if "center" not in kwargs:
-        center = "mean"
-    else:
-        center = kwargs.pop("center")
-    Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
-    n, p = Xn.shape
-
-    diff_b = []
-    mean_diff = []
-    for k in range(1, p + 1):
-        print("possible dim", k)
-        sdr = sudire(
-            sudiremeth,
-            center_data=center_data,
-            scale_data=scale_data,
-            center=center,
-            n_slices=n_slices,
-            n_components=k,
-        )
-        sdr.fit(Xn, y=y)
-        projMat = sdr.proj_mat_
-
-        for b in range(B):
-            idx = np.random.randint(0, n, n)
-            X_b = Xn[idx, :].copy()
-            sdr_b = sudire(
-                sudiremeth,
-                center_data=center_data,
-                scale_data=scale_data,
-                center=center,
-                n_slices=n_slices,
-                n_components=k,
-            )
-            sdr_b.fit(X_b, y=y)
-            projMat_b = sdr_b.proj_mat_
-            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
-            diff_b.append(np.nanmax(sh))
-        mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+# -*- coding: utf-8 -*-
+
+import numpy as np
+from scipy.linalg import inv, sqrtm
+import copy
+from sklearn.utils.metaestimators import _BaseComposition
+from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
+from ..preprocessing.robcent import VersatileScaler
+from ._sudire_utils import *
+from scipy.linalg import orth
+import warnings
+import statsmodels.robust.scale as srs
+from scipy.stats import trim_mean
+import dcor as dc
+
+# import Ball
+import statsmodels.api as sm
+import inspect
+from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
+from ..ipopt_temp.jacobian import (
+    FunctionWithApproxJacobianCentral,
+    FunctionWithApproxJacobian,
+)
+from ..dicomo._dicomo_utils import *
+from ..utils.utils import *
+
+
+class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+
+    """SUDIRE Sufficient Dimension Reduction 
+    
+    The class allows for Sufficient Dimension Reduction using a variety of 
+    methods. If the method requires optimization of a function, 
+    This optimization is done through the Interior Point Optimizer (IPOPT)
+    algorithm. 
+        
+    Parameters
+    ----------
+        sudiremeth: function or class. sudiremeth in this package can also be used, 
+        but user defined functions  can be processed. Built in options are : 
+
+            save : Sliced Average Variance Estimation
+
+            sir  : Slices Inverse Regression
+
+            dr   : Directional Regression 
+
+            iht  : Iterative Hessian Transformations
+
+            dcov-sdr : SDR via Distance Covariance 
+            
+            mdd-sdr : SDR via Martingale Difference Divergence.
+
+            bcov-sdr : SDR via ball covariance
+            
+        n_components : int 
+                      dimension of the central subspace.
+            
+        trimming : float
+                 trimming percentage to be entered as pct/100 
+        
+        optimizer_options : dict 
+                            with options to pass on to the optimizer.Includes: 
+
+        max_iter : int
+                     Maximal number of iterations.
+
+        tol: float
+             relative convergence tolerance
+
+        constr_viol_tol : float
+                        Desired threshold for the constraint violation.
+            
+        optimizer_constraints : dict or list of dicts
+                                 further constraints to be passed on to the 
+                                 optimizer function.
+            
+        optimizer_arguments: dict
+                             extra arguments to be passed to the sudiremeth 
+                             function during optimization.
+        
+        optimizer_start : numpy array
+                         starting value for the optimization.
+        
+        center : str
+             how to center the data. options accepted are options from sprm.preprocessing 
+            
+        center_data : bool 
+                    If True, the data will be centered before the dimension reduction   
+        
+        scale_data : bool
+                    if set to False, convergence to correct optimum  is not a given.
+                    Will throw a warning. 
+            
+        compression : bool
+                     Use internal data compresion step for flat data. 
+        
+        n_slices :  int
+                    The number of slices for SAVE, SIR, DR
+    
+        is_distance_mat : bool 
+                         if the inputed matrices for x and y are distance matrices.
+            
+        dmetric :  str
+                 distance metric used internally. Defaults to 'euclidean'
+        
+        fit_ols :  bool 
+                 if True, an OLS model is fitted after the dimension reduction.
+        
+        copy : bool
+              Whether to make a deep copy of the input data or not. 
+        
+        verbose : bool
+                 Set to True prints the iteration number. 
+        
+        return_scaling_object: bool. 
+                                If True, the scaling object will be return after the 
+                                dimension reduction. 
+
+    Attributes
+    ----------
+    Attributes always provided 
+        -  `x_loadings_`: Estimated basis of the central subspace 
+        -  `x_scores_`: The projected X data. 
+        -  `x_loc_`:  location estimate for X 
+        -  `x_sca_`:  scale estimate for X
+        - ` ols_obj` : fitted OLS objected
+        -  `y_loc_`: y location estimate
+        -  `y_sca_`: y scale estimate
+
+    Attributes created only when corresponding input flags are `True`:
+        -   `whitening_`: whitened data matrix (usually denoted K)
+        -   `scaling_object_`: scaling object from `VersatileScaler`  
+        
+    
+        
+    
+    """
+
+    def __init__(
+        self,
+        sudiremeth="dcov-sdr",
+        n_components=2,
+        trimming=0,
+        optimizer_options={"max_iter": 1000},
+        optimizer_constraints=None,
+        optimizer_arguments=None,
+        optimizer_start=None,
+        center_data=True,
+        center="mean",
+        scale_data=True,
+        whiten_data=False,
+        compression=False,
+        n_slices=6,
+        dmetric="euclidean",
+        fit_ols=True,
+        copy=True,
+        response_type="continuous",
+        verbose=True,
+        return_scaling_object=True,
+    ):
+        # Called arguments
+        self.sudiremeth = sudiremeth
+        self.n_components = n_components
+        self.trimming = trimming
+        self.optimizer_options = optimizer_options
+        self.optimizer_constraints = optimizer_constraints
+        self.optimizer_arguments = optimizer_arguments
+        self.optimizer_start = optimizer_start
+        self.center = center
+        self.center_data = center_data
+        self.scale_data = scale_data
+        self.whiten_data = whiten_data
+        self.compression = compression
+        self.n_slices = n_slices
+        self.dmetric = dmetric
+        self.fit_ols = fit_ols
+        self.copy = copy
+        self.response_type = response_type
+        self.verbose = verbose
+        self.return_scaling_object = return_scaling_object
+
+        # Other global parameters
+        self.licenter = ["mean", "median"]
+        if not (self.center in self.licenter):
+            raise (
+                ValueError(
+                    'Only location estimator classes allowed are: "mean", "median"'
+                )
+            )
+        self.limeths = [
+            "sir",
+            "save",
+            "dr",
+            "dcov-sdr",
+            "bcov-sdr",
+            "mdd-sdr",
+            "phd",
+            "iht",
+        ]
+        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
+            raise (
+                ValueError(
+                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
+                )
+            )
+
+    def fit(self, X, y, *args, **kwargs):
+
+        """
+        Fit a Sufficient Dimension Reduction Model. 
+        
+        Parameters
+        ----------
+                X : matrix or data frame 
+                    Input data of predictors  
+
+                y :  vector or 1D matrix
+                    Response data
+                
+                args or kwargs : 
+                                Further parameters to user defined sudiremeth can be passed here  
+        Returns
+        -------
+            self
+        
+        -------
+        """
+
+        # Collect optional fit arguments
+
+        if "dmetric" not in kwargs:
+            dmetric = "euclidean"
+        else:
+            dmetric = kwargs.get("dmetric")
+        if "biascorr" not in kwargs:
+            biascorr = False
+        else:
+            biascorr = kwargs.get("biascorr")
+        if "flag" not in kwargs:
+            flag = "two-block"
+        else:
+            flag = kwargs.get("flag")
+        if "is_distance_mat" not in kwargs:
+            is_distance_mat = False
+        else:
+            is_distance_mat = kwargs.pop("is_distance_mat")
+        # Initiate some parameters and data frames
+        if self.copy:
+            X0 = copy.deepcopy(X)
+            self.X0 = X0
+        else:
+            X0 = X
+        X = convert_X_input(X0)
+        n, p = X0.shape
+        trimming = self.trimming
+
+        # Check dimensions
+        if self.n_components > min(n, p):
+            raise (
+                MyException(
+                    "number of components cannot exceed number of variables or sample size"
+                )
+            )
+        # Pre-processing adjustment if whitening
+        if self.whiten_data:
+            self.center_data = True
+            self.scale_data = False
+            self.compression = False
+            print("All results produced are for whitened data")
+        # Store original X data mean and varcov matrix.
+        varmatx = np.cov(X, rowvar=0)
+        meanx = X.mean(axis=0)
+        N2 = inv(sqrtm(varmatx))
+
+        # Data Compression for flat tables if required
+        if (p > n) and self.compression:
+            V, S, U = np.linalg.svd(X.T, full_matrices=False)
+            X = np.matmul(U.T, np.diag(S))
+            n, p = X.shape
+
+            if (srs.mad(X) == 0).any():
+                warnings.warn(
+                    "Due to low scales in data, compression would induce zero scales."
+                    + "\n"
+                    + "Proceeding without compression."
+                )
+                dimensions = False
+                if copy:
+                    X = copy.deepcopy(X0)
+                else:
+                    X = X0
+            else:
+                dimensions = True
+        else:
+            dimensions = False
+
+            # Centring and scaling
+            # centering :
+        if self.center_data:
+            if self.center != "mean":
+                centring = VersatileScaler(
+                    center=self.center, scale="None", trimming=self.trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                Xs = X - trim_mean(X, self.trimming, axis=0)
+                mX = trim_mean(X, self.trimming, axis=0)
+                sX = np.sqrt(np.diag(varmatx))
+        else:
+            Xs = X0
+            mX = np.zeros((1, p))
+            sX = np.ones((1, p))
+        if self.scale_data:
+            if self.center == "mean":
+                scale = "std"
+                N2 = inv(sqrtm(varmatx))
+                Xs = np.matmul(Xs, N2)
+            elif (self.center == "median") or (self.center == "l1median"):
+                scale = "mad"
+                centring = VersatileScaler(
+                    center=self.center, scale=scale, trimming=trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                raise (
+                    MyException(
+                        'centering options have to be either "mean", "median", or "l1median"'
+                    )
+                )
+        else:
+            scale = "None"
+            warnings.warn("Without scaling, convergence to optima is not given")
+        # Initiate centring object and scale X data
+
+        if self.whiten_data:
+            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
+            del U
+            K = (V / S)[:, :p]
+            del S
+            Xs = np.matmul(Xs, K)
+            Xs *= np.sqrt(p)
+        # Pre-process y data
+        ny = y.shape[0]
+        y = convert_y_input(y)
+        if len(y.shape) < 2:
+            y = np.array(y).reshape((ny, 1))
+        if ny != n:
+            raise (MyException("X and y number of rows must agree"))
+        # Pre-process y data when available
+        if flag != "one-block":
+            ny = y.shape[0]
+            y = convert_y_input(y)
+            if len(y.shape) < 2:
+                y = np.array(y).reshape((ny, 1))
+            if ny != n:
+                raise (MyException("X and y number of rows must agree"))
+            if self.copy:
+                y0 = copy.deepcopy(y)
+                self.y0 = y0
+            if self.center_data:
+                ys = y  # dont center y
+                my = np.mean(y, axis=0)
+                sy = np.sqrt(np.var(y, axis=0))
+            else:
+                ys = y
+                my = 0
+                sy = 1
+            ys = ys.astype("float64")
+        else:
+            ys = None
+        if self.sudiremeth == "sir":
+            P = SIR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "save":
+            P = SAVE(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "dr":
+            P = DR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "phd":
+            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "iht":
+            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            if self.scale_data:
+                P = np.matmul(N2, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        else:  # SDR obtained through optimization of some function
+
+            ## choose starting value for DCOV-SDR
+            if self.optimizer_start is None:
+                save_start = SAVE(
+                    Xs, ys, 3, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    save_start = np.matmul(N2, save_start)
+                sir_start = SIR(
+                    Xs, ys, 6, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    sir_start = np.matmul(N2, sir_start)
+                beta_save = orth(save_start)
+                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
+                beta_sir = orth(sir_start)
+                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
+                DR_start = DR(
+                    Xs, y, 6, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    DR_start = np.matmul(N2, DR_start)
+                beta_DR = orth(DR_start)
+                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
+                if dc_save >= dc_sir and dc_save >= dc_DR:
+                    self.optimizer_start = save_start.flatten(order="F")
+                elif dc_sir >= dc_save and dc_sir >= dc_DR:
+                    self.optimizer_start = sir_start.flatten(order="F")
+                else:
+                    self.optimizer_start = DR_start.flatten(order="F")
+            ## add constraints for the optimization
+            if self.optimizer_constraints is None:
+                const_x = []
+                const_z = []
+                for i in range(0, self.n_components):
+                    for j in range(0, self.n_components):
+                        const_x.append(
+                            {
+                                "type": "eq",
+                                "fun": const_xscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )  # change const2 to const_func
+                        const_z.append(
+                            {
+                                "type": "eq",
+                                "fun": const_zscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )
+                if self.scale_data:
+                    self.optimizer_constraints = tuple(const_z)
+                else:
+                    self.optimizer_constraints = tuple(const_x)
+            if self.optimizer_arguments is None:
+                N2 = inv(sqrtm(varmatx))
+                self.optimizer_arguments = (
+                    Xs,
+                    ys,
+                    self.n_components,
+                    N2,
+                    is_distance_mat,
+                    self.trimming,
+                    self.center,
+                    dmetric,
+                    biascorr,
+                )
+            # perform DCOV-SDR optimization
+            res = minimize_ipopt(
+                dcov_trim,
+                self.optimizer_start,
+                args=self.optimizer_arguments,
+                constraints=self.optimizer_constraints,
+                options=self.optimizer_options,
+            )
+            if self.scale_data:
+                dcov_res = np.matmul(
+                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
+                )
+            else:
+                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
+            if self.sudiremeth == "dcov-sdr":
+                P = dcov_res
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "bcov-sdr":
+                self.optimizer_start = dcov_res.flatten(order="F")
+                res_ball = minimize_ipopt(
+                    ballcov_func,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "mdd-sdr":
+                self.optimizer_start = dcov_res.flatten(order="F")
+                res_mdd = minimize_ipopt(
+                    mdd_trim,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            else:  ## user defined function
+                self.optimizer_start = dcov_res.flatten(order="F")
+                opt_res = minimize_ipopt(
+                    self.sudiremeth,
+                    self.optimizer_start,
+                    args=self.optimizer_arguments,
+                    constraints=self.optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                if self.scale_data:
+                    P = np.matmul(
+                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                    )
+                else:
+                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+        # perform OLS regression
+        T_reg = sm.add_constant(T)  # adding a constant
+        ols_obj = sm.OLS(ys, T_reg).fit()
+
+        # Re-adjust estimates to original dimensions if data have been compressed
+        if dimensions:
+            P = np.matmul(V[:, 0:p], P)
+        setattr(self, "x_loadings_", P)
+        setattr(self, "x_scores_", T)
+        setattr(self, "proj_mat_", projMat)
+        if self.whiten_data:
+            setattr(self, "whitening_", K)
+        setattr(self, "x_loc_", mX)
+        setattr(self, "x_sca_", sX)
+        setattr(self, "scaling_", scale)
+        setattr(self, "ols_obj_", ols_obj)
+        if self.return_scaling_object and self.center != "mean":
+            setattr(self, "scaling_object_", centring)
+        return self
+
+    def transform(self, Xn, distance_mat=False):
+        """
+        Computes the dimension reduction of the data Xn based on the fitted sudire model.
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                distance_mat : numpy array 
+                                 distance matrix to represent similarity between observations. 
+                
+                args or kwargs: 
+                                Further parameters to user defined sufdiremeth can be passed here  
+        Returns
+        -------
+        transformed_data : numpy array
+                             the dimension reduced data 
+
+         -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        return np.matmul(Xn, self.x_loadings_)
+
+    def predict(self, Xn, is_distance_mat=False):
+        """
+        predicts the response  on new data Xn
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                is_distance_mat : bool 
+                                 if True, Xn is treated as a distance matrix 
+                
+        Returns
+        -------
+        predictions : numpy array 
+                      The predictions from the dimension reduction model
+        -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        Xns = self.transform(Xn)
+        Xns = sm.add_constant(Xns)  # adding a constant
+        ys = self.ols_obj_.predict(Xns)
+        return ys
+
+    @classmethod
+    def _get_param_names(cls):
+        """Get parameter names for the estimator"""
+        # fetch the constructor or the original constructor before
+        # deprecation wrapping if any
+        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
+        if init is object.__init__:
+            # No explicit constructor to introspect
+            return []
+        # introspect the constructor arguments to find the model parameters
+        # to represent
+        init_signature = inspect.signature(init)
+        # Consider the constructor parameters excluding 'self'
+        parameters = [
+            p
+            for p in init_signature.parameters.values()
+            if p.name != "self" and p.kind != p.VAR_KEYWORD
+        ]
+        for p in parameters:
+            if p.kind == p.VAR_POSITIONAL:
+                raise RuntimeError(
+                    "scikit-learn estimators should always "
+                    "specify their parameters in the signature"
+                    " of their __init__ (no varargs)."
+                    " %s with constructor %s doesn't "
+                    " follow this convention." % (cls, init_signature)
+                )
+        # Extract and sort argument names excluding 'self'
+        return sorted([p.name for p in parameters])
+
+    def get_params(self, deep=False):
+        """Get parameters for this estimator.
+        Parameters
+        ----------
+        deep : boolean, optional
+            If True, will return the parameters for this estimator and
+            contained subobjects that are estimators.
+        Returns
+        -------
+        params : mapping of string to any
+            Parameter names mapped to their values.
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        out = dict()
+        for key in self._get_param_names():
+            value = getattr(self, key, None)
+            if deep and hasattr(value, "get_params"):
+                deep_items = value.get_params().items()
+                out.update((key + "__" + k, val) for k, val in deep_items)
+            out[key] = value
+        return out
+
+    def set_params(self, **params):
+        """Set the parameters of this estimator.
+        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
+        
+        Returns
+        -------
+        self
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        if not params:
+            # Simple optimization to gain speed (inspect is slow)
+            return self
+        valid_params = self.get_params()
+
+        nested_params = defaultdict(dict)  # grouped by prefix
+        for key, value in params.items():
+            key, delim, sub_key = key.partition("__")
+            if key not in valid_params:
+                raise ValueError(
+                    "Invalid parameter %s for estimator %s. "
+                    "Check the list of available parameters "
+                    "with `estimator.get_params().keys()`." % (key, self)
+                )
+            if delim:
+                nested_params[key][sub_key] = value
+            else:
+                setattr(self, key, value)
+                valid_params[key] = value
+        for key, sub_params in nested_params.items():
+            valid_params[key].set_params(**sub_params)
+        return self
+
+
+def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
+    """
+    Estimates the dimension of the central subspace using 
+    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
+    
+    Parameters
+    ----------
+
+        sudiremeth : str
+                    the SDR method to use in the estimation.
+
+        X :  numpy array or dataframe
+            Input X data
+
+        Y : vector or 1d matrix
+            Input Y data as 
+
+        B : int 
+            Number of bootstrap replications
+
+        kwargs:
+
+            n_slices: number of slices for SIR/SAVE/DR
+
+            center_data, bool : if the data  should be centered 
+
+            scale_data, bool :  if the data should be scaled
+
+            center, string :   which centering('mean', 'median')
+            
+    Returns
+    ----------     
+
+    h : int 
+        representing the dimension of the central subspace
+
+    ----------
+    """
+    if "n_slices" not in kwargs:
+        n_slices = 6
+    else:
+        n_slices = kwargs.pop("n_slices")
+    if "center_data" not in kwargs:
+        center_data = True
+    else:
+        center_data = kwargs.pop("center_data")
+    if "scale_data" not in kwargs:
+        scale_data = True
+    else:
+        scale_data = kwargs.pop("scale_data")
+    if "center" not in kwargs:
+        center = "mean"
+    else:
+        center = kwargs.pop("center")
+    Xn = convert_X_input(Xn)
+    y = convert_y_input(y)
+    n, p = Xn.shape
+
+    diff_b = []
+    mean_diff = []
+    for k in range(1, p + 1):
+        print("possible dim", k)
+        sdr = sudire(
+            sudiremeth,
+            center_data=center_data,
+            scale_data=scale_data,
+            center=center,
+            n_slices=n_slices,
+            n_components=k,
+        )
+        sdr.fit(Xn, y=y)
+        projMat = sdr.proj_mat_
+
+        for b in range(B):
+            idx = np.random.randint(0, n, n)
+            X_b = Xn[idx, :].copy()
+            sdr_b = sudire(
+                sudiremeth,
+                center_data=center_data,
+                scale_data=scale_data,
+                center=center,
+                n_slices=n_slices,
+                n_components=k,
+            )
+            sdr_b.fit(X_b, y=y)
+            projMat_b = sdr_b.proj_mat_
+            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
+            diff_b.append(np.nanmax(sh))
+        mean_diff.append(np.mean(diff_b))
+    return (np.argmin(mean_diff) + 1, mean_diff)
-- 
2.43.0


From 3458b5e93d958ce64e7629a23a3b0ec813893bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:40 +0000
Subject: [PATCH 42/68] fix: sudire can be fitted with copy=False

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 194158d..951dd84 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -248,9 +248,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Initiate some parameters and data frames
         if self.copy:
             X0 = copy.deepcopy(X)
-            self.X0 = X0
         else:
             X0 = X
+        self.X0 = X0
         X = convert_X_input(X0)
         n, p = X0.shape
         trimming = self.trimming
-- 
2.43.0


From 4a687686c1aa16dd1dd3a7d0e430f5986b7ccbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:11 +0000
Subject: [PATCH 43/68] fix: sudire predicts single cases and new data with
 constant scores

---
 src/direpack/sudire/sudire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 951dd84..5c645d1 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -568,7 +568,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
         # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
+        T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
         ols_obj = sm.OLS(ys, T_reg).fit()
 
         # Re-adjust estimates to original dimensions if data have been compressed
@@ -647,7 +647,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
         return ys
 
-- 
2.43.0


From 7de366e500ae883e1e77bcad3cc3ff081af7c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:40 +0000
Subject: [PATCH 44/68] fix: sudire uses the distance metric it is constructed
 with

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 5c645d1..4d1a447 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -230,7 +230,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Collect optional fit arguments
 
         if "dmetric" not in kwargs:
-            dmetric = "euclidean"
+            dmetric = self.dmetric
         else:
             dmetric = kwargs.get("dmetric")
         if "biascorr" not in kwargs:
-- 
2.43.0


From e7a93c16b506661617c3ea5ee2b1facd807ffa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:09 +0000
Subject: [PATCH 45/68] fix: sudire maps directions back through the scaling
 that was applied, also for median centring and whitening

---
 src/direpack/sudire/sudire.py | 60 +++++++++++++++--------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 4d1a447..8ded166 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -344,6 +344,15 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             del S
             Xs = np.matmul(Xs, K)
             Xs *= np.sqrt(p)
+        # Matrix that maps directions for Xs to directions for X
+        if self.whiten_data:
+            back = K * np.sqrt(p)
+        elif not self.scale_data:
+            back = np.identity(p)
+        elif self.center == "mean":
+            back = N2
+        else:
+            back = np.diag(1 / np.where(sX == 0, 1, sX))
         # Pre-process y data
         ny = y.shape[0]
         y = convert_y_input(y)
@@ -383,8 +392,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.center_data,
                 self.scale_data,
             )
-            if self.scale_data:
-                P = np.matmul(N2, P)
+            P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "save":
@@ -397,8 +405,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.center_data,
                 self.scale_data,
             )
-            if self.scale_data:
-                P = np.matmul(N2, P)
+            P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "dr":
@@ -411,20 +418,17 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.center_data,
                 self.scale_data,
             )
-            if self.scale_data:
-                P = np.matmul(N2, P)
+            P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "phd":
             P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
+            P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "iht":
             P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
-                P = np.matmul(N2, P)
+            P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         else:  # SDR obtained through optimization of some function
@@ -506,12 +510,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 constraints=self.optimizer_constraints,
                 options=self.optimizer_options,
             )
-            if self.scale_data:
-                dcov_res = np.matmul(
-                    N2, np.reshape(res.x, (-1, self.n_components), order="F")
-                )
-            else:
-                dcov_res = np.reshape(res.x, (-1, self.n_components), order="F")
+            dcov_res = np.matmul(
+                back, np.reshape(res.x, (-1, self.n_components), order="F")
+            )
             if self.sudiremeth == "dcov-sdr":
                 P = dcov_res
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
@@ -525,12 +526,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=self.optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                P = np.matmul(
+                    back, np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                )
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "mdd-sdr":
@@ -542,12 +540,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=self.optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                P = np.matmul(
+                    back, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                )
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             else:  ## user defined function
@@ -559,12 +554,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=self.optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
-                    P = np.matmul(
-                        N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                    )
-                else:
-                    P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                P = np.matmul(
+                    back, np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                )
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
         # perform OLS regression
-- 
2.43.0


From 348ab2246e24a3156a6c25c418daec67d31d2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:36 +0000
Subject: [PATCH 46/68] fix: sudire optimises over the data of the current fit,
 not of an earlier one

---
 src/direpack/sudire/sudire.py | 51 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 8ded166..e3dc87d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -434,7 +434,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         else:  # SDR obtained through optimization of some function
 
             ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
+            if optimizer_start is None:
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components, self.response_type,
                     self.center_data, self.scale_data
@@ -460,13 +463,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
+                    optimizer_start = save_start.flatten(order="F")
                 elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
+                    optimizer_start = sir_start.flatten(order="F")
                 else:
-                    self.optimizer_start = DR_start.flatten(order="F")
+                    optimizer_start = DR_start.flatten(order="F")
             ## add constraints for the optimization
-            if self.optimizer_constraints is None:
+            if optimizer_constraints is None:
                 const_x = []
                 const_z = []
                 for i in range(0, self.n_components):
@@ -486,12 +489,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                             }
                         )
                 if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
+                    optimizer_constraints = tuple(const_z)
                 else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
                 N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
+                optimizer_arguments = (
                     Xs,
                     ys,
                     self.n_components,
@@ -505,9 +508,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             # perform DCOV-SDR optimization
             res = minimize_ipopt(
                 dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
             dcov_res = np.matmul(
@@ -518,12 +521,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
                     ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 P = np.matmul(
@@ -532,12 +535,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
                     mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 P = np.matmul(
@@ -546,12 +549,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 P = np.matmul(
-- 
2.43.0


From daeb93a2dffd3b913795037b85b37c0405beb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:59 +0000
Subject: [PATCH 47/68] fix: sudire provides the location and scale of y

---
 src/direpack/sudire/sudire.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index e3dc87d..213ba68 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -578,6 +578,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "x_sca_", sX)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
+        if flag != "one-block":
+            setattr(self, "y_loc_", my)
+            setattr(self, "y_sca_", sy)
         if self.return_scaling_object and self.center != "mean":
             setattr(self, "scaling_object_", centring)
         return self
-- 
2.43.0


From 105d2cc25c6b2b3596170fb2aad90deca51dbea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:22 +0000
Subject: [PATCH 48/68] fix: the bootstrap in estimate_structural_dim resamples
 cases, not X alone

---
 src/direpack/sudire/sudire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 213ba68..00284a0 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -812,6 +812,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
         for b in range(B):
             idx = np.random.randint(0, n, n)
             X_b = Xn[idx, :].copy()
+            y_b = y[idx].copy()
             sdr_b = sudire(
                 sudiremeth,
                 center_data=center_data,
@@ -820,7 +821,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
                 n_slices=n_slices,
                 n_components=k,
             )
-            sdr_b.fit(X_b, y=y)
+            sdr_b.fit(X_b, y=y_b)
             projMat_b = sdr_b.proj_mat_
             uh, sh, vh = np.linalg.svd(projMat - projMat_b)
             diff_b.append(np.nanmax(sh))
-- 
2.43.0


From 58b9d58d693cc1f40c343c90c744b4485148104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:02 +0000
Subject: [PATCH 49/68] fix: estimate_structural_dim compares the dimensions
 below p, each by its own resamples

---
 src/direpack/sudire/sudire.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 00284a0..e080dc9 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -794,9 +794,10 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
     y = convert_y_input(y)
     n, p = Xn.shape
 
-    diff_b = []
     mean_diff = []
-    for k in range(1, p + 1):
+    # the subspace of dimension p is the same for all data, so it cannot be compared
+    for k in range(1, max(p, 2)):
+        diff_b = []
         print("possible dim", k)
         sdr = sudire(
             sudiremeth,
-- 
2.43.0


From d85a274fd576594c669c3e90afe960e22eab4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:44 +0000
Subject: [PATCH 50/68] fix: dicomo honours dmetric also when the fast distance
 algorithm is requested

---
 src/direpack/dicomo/dicomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 93e2eda..c5e4a5b 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -342,7 +342,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2 and dmetric=='euclidean'):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
-- 
2.43.0


From 9c0308a5b0b2324ca43296cd8392feaf1b67ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:44 +0000
Subject: [PATCH 51/68] fix: dicomo bias-corrects trimmed distance moments of x
 and y with the same sample size

---
 src/direpack/dicomo/dicomo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index c5e4a5b..519bc6a 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -398,10 +398,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please supply second data vector'))
                     else:
                         y = kwargs.get('y')
-                        n1 = len(y)
-                    if n1==0:
+                        ny = len(y)
+                    if ny==0:
                         raise(MyException('Please feed data with length > 0'))
-                    if n1!=n:
+                    if ny!=n:
                         raise(MyException('Please feed x and y data of equal length'))
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
@@ -424,7 +424,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From d0c4302fb1b52802dabf7af76d86c3ac3fa4218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:15 +0000
Subject: [PATCH 52/68] fix: SIR, SAVE and DR find the classes of discrete
 responses by comparison, not by their rounded variance

---
 src/direpack/sudire/_sudire_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 7606d27..eb8db33 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -221,7 +221,7 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
     yless = ydis
     ylabel = []
     for i in range(n):
-        if np.var(yless) != 0:
+        if (yless != yless[0]).any():
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
@@ -286,7 +286,7 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
     yless = ydis
     ylabel = []
     for i in range(n):
-        if np.var(yless) != 0:
+        if (yless != yless[0]).any():
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
@@ -358,7 +358,7 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
     yless = ydis
     ylabel = []
     for i in range(n):
-        if np.var(yless) != 0:
+        if (yless != yless[0]).any():
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
-- 
2.43.0


From 9b0e2b6a715ea262d2a73a2127f5e01b0cd72faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:15 +0000
Subject: [PATCH 53/68] fix: std of a constant column is zero also if its mean
 is subject to rounding

---
 src/direpack/preprocessing/_preproc_utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index c16dd59..81c978a 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -89,16 +89,18 @@ def mean(X, trimming=0):
 def std(X, trimming=0):
     """
     Column-wise standard devaition or trimmed std.
-    Trimming to be entered as fraction.
+    Trimming to be entered as fraction. Data are moved to one of their own
+    values first, so that constant columns have exactly zero scale.
     """
 
     if trimming == 0:
         if np.isnan(X).any():
-            s = np.power(np.nanvar(X, axis=0), 0.5)
+            s = np.power(np.nanvar(X - median(X), axis=0), 0.5)
         else:
-            s = np.power(np.var(X, axis=0), 0.5)
+            s = np.power(np.var(X - X[0], axis=0), 0.5)
         s = np.array(s).reshape(-1)
     else:
+        X = X - median(X)
         var = sps.trim_mean(
             np.square(X - sps.trim_mean(X, trimming, 0)), trimming, 0
         )
-- 
2.43.0


From bf7b3b8dca52d9803a8afa7bb2cf625892b2a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:35 +0000
Subject: [PATCH 54/68] fix: sudire.py has the CRLF line endings it had before
 its repairs

---
 src/direpack/sudire/sudire.py | 1660 ++++++++++++++++-----------------
 1 file changed, 830 insertions(+), 830 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index e080dc9..c16a44d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -1,830 +1,830 @@
-# -*- coding: utf-8 -*-
-
-import numpy as np
-from scipy.linalg import inv, sqrtm
-import copy
-from sklearn.utils.metaestimators import _BaseComposition
-from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
-from ..preprocessing.robcent import VersatileScaler
-from ._sudire_utils import *
-from scipy.linalg import orth
-import warnings
-import statsmodels.robust.scale as srs
-from scipy.stats import trim_mean
-import dcor as dc
-
-# import Ball
-import statsmodels.api as sm
-import inspect
-from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
-from ..ipopt_temp.jacobian import (
-    FunctionWithApproxJacobianCentral,
-    FunctionWithApproxJacobian,
-)
-from ..dicomo._dicomo_utils import *
-from ..utils.utils import *
-
-
-class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
-
-    """SUDIRE Sufficient Dimension Reduction 
-    
-    The class allows for Sufficient Dimension Reduction using a variety of 
-    methods. If the method requires optimization of a function, 
-    This optimization is done through the Interior Point Optimizer (IPOPT)
-    algorithm. 
-        
-    Parameters
-    ----------
-        sudiremeth: function or class. sudiremeth in this package can also be used, 
-        but user defined functions  can be processed. Built in options are : 
-
-            save : Sliced Average Variance Estimation
-
-            sir  : Slices Inverse Regression
-
-            dr   : Directional Regression 
-
-            iht  : Iterative Hessian Transformations
-
-            dcov-sdr : SDR via Distance Covariance 
-            
-            mdd-sdr : SDR via Martingale Difference Divergence.
-
-            bcov-sdr : SDR via ball covariance
-            
-        n_components : int 
-                      dimension of the central subspace.
-            
-        trimming : float
-                 trimming percentage to be entered as pct/100 
-        
-        optimizer_options : dict 
-                            with options to pass on to the optimizer.Includes: 
-
-        max_iter : int
-                     Maximal number of iterations.
-
-        tol: float
-             relative convergence tolerance
-
-        constr_viol_tol : float
-                        Desired threshold for the constraint violation.
-            
-        optimizer_constraints : dict or list of dicts
-                                 further constraints to be passed on to the 
-                                 optimizer function.
-            
-        optimizer_arguments: dict
-                             extra arguments to be passed to the sudiremeth 
-                             function during optimization.
-        
-        optimizer_start : numpy array
-                         starting value for the optimization.
-        
-        center : str
-             how to center the data. options accepted are options from sprm.preprocessing 
-            
-        center_data : bool 
-                    If True, the data will be centered before the dimension reduction   
-        
-        scale_data : bool
-                    if set to False, convergence to correct optimum  is not a given.
-                    Will throw a warning. 
-            
-        compression : bool
-                     Use internal data compresion step for flat data. 
-        
-        n_slices :  int
-                    The number of slices for SAVE, SIR, DR
-    
-        is_distance_mat : bool 
-                         if the inputed matrices for x and y are distance matrices.
-            
-        dmetric :  str
-                 distance metric used internally. Defaults to 'euclidean'
-        
-        fit_ols :  bool 
-                 if True, an OLS model is fitted after the dimension reduction.
-        
-        copy : bool
-              Whether to make a deep copy of the input data or not. 
-        
-        verbose : bool
-                 Set to True prints the iteration number. 
-        
-        return_scaling_object: bool. 
-                                If True, the scaling object will be return after the 
-                                dimension reduction. 
-
-    Attributes
-    ----------
-    Attributes always provided 
-        -  `x_loadings_`: Estimated basis of the central subspace 
-        -  `x_scores_`: The projected X data. 
-        -  `x_loc_`:  location estimate for X 
-        -  `x_sca_`:  scale estimate for X
-        - ` ols_obj` : fitted OLS objected
-        -  `y_loc_`: y location estimate
-        -  `y_sca_`: y scale estimate
-
-    Attributes created only when corresponding input flags are `True`:
-        -   `whitening_`: whitened data matrix (usually denoted K)
-        -   `scaling_object_`: scaling object from `VersatileScaler`  
-        
-    
-        
-    
-    """
-
-    def __init__(
-        self,
-        sudiremeth="dcov-sdr",
-        n_components=2,
-        trimming=0,
-        optimizer_options={"max_iter": 1000},
-        optimizer_constraints=None,
-        optimizer_arguments=None,
-        optimizer_start=None,
-        center_data=True,
-        center="mean",
-        scale_data=True,
-        whiten_data=False,
-        compression=False,
-        n_slices=6,
-        dmetric="euclidean",
-        fit_ols=True,
-        copy=True,
-        response_type="continuous",
-        verbose=True,
-        return_scaling_object=True,
-    ):
-        # Called arguments
-        self.sudiremeth = sudiremeth
-        self.n_components = n_components
-        self.trimming = trimming
-        self.optimizer_options = optimizer_options
-        self.optimizer_constraints = optimizer_constraints
-        self.optimizer_arguments = optimizer_arguments
-        self.optimizer_start = optimizer_start
-        self.center = center
-        self.center_data = center_data
-        self.scale_data = scale_data
-        self.whiten_data = whiten_data
-        self.compression = compression
-        self.n_slices = n_slices
-        self.dmetric = dmetric
-        self.fit_ols = fit_ols
-        self.copy = copy
-        self.response_type = response_type
-        self.verbose = verbose
-        self.return_scaling_object = return_scaling_object
-
-        # Other global parameters
-        self.licenter = ["mean", "median"]
-        if not (self.center in self.licenter):
-            raise (
-                ValueError(
-                    'Only location estimator classes allowed are: "mean", "median"'
-                )
-            )
-        self.limeths = [
-            "sir",
-            "save",
-            "dr",
-            "dcov-sdr",
-            "bcov-sdr",
-            "mdd-sdr",
-            "phd",
-            "iht",
-        ]
-        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
-            raise (
-                ValueError(
-                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
-                )
-            )
-
-    def fit(self, X, y, *args, **kwargs):
-
-        """
-        Fit a Sufficient Dimension Reduction Model. 
-        
-        Parameters
-        ----------
-                X : matrix or data frame 
-                    Input data of predictors  
-
-                y :  vector or 1D matrix
-                    Response data
-                
-                args or kwargs : 
-                                Further parameters to user defined sudiremeth can be passed here  
-        Returns
-        -------
-            self
-        
-        -------
-        """
-
-        # Collect optional fit arguments
-
-        if "dmetric" not in kwargs:
-            dmetric = self.dmetric
-        else:
-            dmetric = kwargs.get("dmetric")
-        if "biascorr" not in kwargs:
-            biascorr = False
-        else:
-            biascorr = kwargs.get("biascorr")
-        if "flag" not in kwargs:
-            flag = "two-block"
-        else:
-            flag = kwargs.get("flag")
-        if "is_distance_mat" not in kwargs:
-            is_distance_mat = False
-        else:
-            is_distance_mat = kwargs.pop("is_distance_mat")
-        # Initiate some parameters and data frames
-        if self.copy:
-            X0 = copy.deepcopy(X)
-        else:
-            X0 = X
-        self.X0 = X0
-        X = convert_X_input(X0)
-        n, p = X0.shape
-        trimming = self.trimming
-
-        # Check dimensions
-        if self.n_components > min(n, p):
-            raise (
-                MyException(
-                    "number of components cannot exceed number of variables or sample size"
-                )
-            )
-        # Pre-processing adjustment if whitening
-        if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
-            print("All results produced are for whitened data")
-        # Store original X data mean and varcov matrix.
-        varmatx = np.cov(X, rowvar=0)
-        meanx = X.mean(axis=0)
-        N2 = inv(sqrtm(varmatx))
-
-        # Data Compression for flat tables if required
-        if (p > n) and self.compression:
-            V, S, U = np.linalg.svd(X.T, full_matrices=False)
-            X = np.matmul(U.T, np.diag(S))
-            n, p = X.shape
-
-            if (srs.mad(X) == 0).any():
-                warnings.warn(
-                    "Due to low scales in data, compression would induce zero scales."
-                    + "\n"
-                    + "Proceeding without compression."
-                )
-                dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
-            else:
-                dimensions = True
-        else:
-            dimensions = False
-
-            # Centring and scaling
-            # centering :
-        if self.center_data:
-            if self.center != "mean":
-                centring = VersatileScaler(
-                    center=self.center, scale="None", trimming=self.trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                Xs = X - trim_mean(X, self.trimming, axis=0)
-                mX = trim_mean(X, self.trimming, axis=0)
-                sX = np.sqrt(np.diag(varmatx))
-        else:
-            Xs = X0
-            mX = np.zeros((1, p))
-            sX = np.ones((1, p))
-        if self.scale_data:
-            if self.center == "mean":
-                scale = "std"
-                N2 = inv(sqrtm(varmatx))
-                Xs = np.matmul(Xs, N2)
-            elif (self.center == "median") or (self.center == "l1median"):
-                scale = "mad"
-                centring = VersatileScaler(
-                    center=self.center, scale=scale, trimming=trimming
-                )
-                Xs = centring.fit_transform(X0)
-                mX = centring.col_loc_
-                sX = centring.col_sca_
-            else:
-                raise (
-                    MyException(
-                        'centering options have to be either "mean", "median", or "l1median"'
-                    )
-                )
-        else:
-            scale = "None"
-            warnings.warn("Without scaling, convergence to optima is not given")
-        # Initiate centring object and scale X data
-
-        if self.whiten_data:
-            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
-            del U
-            K = (V / S)[:, :p]
-            del S
-            Xs = np.matmul(Xs, K)
-            Xs *= np.sqrt(p)
-        # Matrix that maps directions for Xs to directions for X
-        if self.whiten_data:
-            back = K * np.sqrt(p)
-        elif not self.scale_data:
-            back = np.identity(p)
-        elif self.center == "mean":
-            back = N2
-        else:
-            back = np.diag(1 / np.where(sX == 0, 1, sX))
-        # Pre-process y data
-        ny = y.shape[0]
-        y = convert_y_input(y)
-        if len(y.shape) < 2:
-            y = np.array(y).reshape((ny, 1))
-        if ny != n:
-            raise (MyException("X and y number of rows must agree"))
-        # Pre-process y data when available
-        if flag != "one-block":
-            ny = y.shape[0]
-            y = convert_y_input(y)
-            if len(y.shape) < 2:
-                y = np.array(y).reshape((ny, 1))
-            if ny != n:
-                raise (MyException("X and y number of rows must agree"))
-            if self.copy:
-                y0 = copy.deepcopy(y)
-                self.y0 = y0
-            if self.center_data:
-                ys = y  # dont center y
-                my = np.mean(y, axis=0)
-                sy = np.sqrt(np.var(y, axis=0))
-            else:
-                ys = y
-                my = 0
-                sy = 1
-            ys = ys.astype("float64")
-        else:
-            ys = None
-        if self.sudiremeth == "sir":
-            P = SIR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            P = np.matmul(back, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "save":
-            P = SAVE(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            P = np.matmul(back, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "dr":
-            P = DR(
-                Xs,
-                ys,
-                self.n_slices,
-                self.n_components,
-                self.response_type,
-                self.center_data,
-                self.scale_data,
-            )
-            P = np.matmul(back, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            P = np.matmul(back, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            P = np.matmul(back, P)
-            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
-        else:  # SDR obtained through optimization of some function
-
-            ## choose starting value for DCOV-SDR
-            optimizer_start = self.optimizer_start
-            optimizer_constraints = self.optimizer_constraints
-            optimizer_arguments = self.optimizer_arguments
-            if optimizer_start is None:
-                save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    save_start = np.matmul(N2, save_start)
-                sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    sir_start = np.matmul(N2, sir_start)
-                beta_save = orth(save_start)
-                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
-                beta_sir = orth(sir_start)
-                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
-                DR_start = DR(
-                    Xs, y, 6, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
-                )
-                if self.scale_data:
-                    DR_start = np.matmul(N2, DR_start)
-                beta_DR = orth(DR_start)
-                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
-                if dc_save >= dc_sir and dc_save >= dc_DR:
-                    optimizer_start = save_start.flatten(order="F")
-                elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    optimizer_start = sir_start.flatten(order="F")
-                else:
-                    optimizer_start = DR_start.flatten(order="F")
-            ## add constraints for the optimization
-            if optimizer_constraints is None:
-                const_x = []
-                const_z = []
-                for i in range(0, self.n_components):
-                    for j in range(0, self.n_components):
-                        const_x.append(
-                            {
-                                "type": "eq",
-                                "fun": const_xscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )  # change const2 to const_func
-                        const_z.append(
-                            {
-                                "type": "eq",
-                                "fun": const_zscale,
-                                "args": (Xs, self.n_components, i, j),
-                            }
-                        )
-                if self.scale_data:
-                    optimizer_constraints = tuple(const_z)
-                else:
-                    optimizer_constraints = tuple(const_x)
-            if optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
-                optimizer_arguments = (
-                    Xs,
-                    ys,
-                    self.n_components,
-                    N2,
-                    is_distance_mat,
-                    self.trimming,
-                    self.center,
-                    dmetric,
-                    biascorr,
-                )
-            # perform DCOV-SDR optimization
-            res = minimize_ipopt(
-                dcov_trim,
-                optimizer_start,
-                args=optimizer_arguments,
-                constraints=optimizer_constraints,
-                options=self.optimizer_options,
-            )
-            dcov_res = np.matmul(
-                back, np.reshape(res.x, (-1, self.n_components), order="F")
-            )
-            if self.sudiremeth == "dcov-sdr":
-                P = dcov_res
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "bcov-sdr":
-                optimizer_start = dcov_res.flatten(order="F")
-                res_ball = minimize_ipopt(
-                    ballcov_func,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                P = np.matmul(
-                    back, np.reshape(res_ball.x, (-1, self.n_components), order="F")
-                )
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            elif self.sudiremeth == "mdd-sdr":
-                optimizer_start = dcov_res.flatten(order="F")
-                res_mdd = minimize_ipopt(
-                    mdd_trim,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                P = np.matmul(
-                    back, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
-                )
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-            else:  ## user defined function
-                optimizer_start = dcov_res.flatten(order="F")
-                opt_res = minimize_ipopt(
-                    self.sudiremeth,
-                    optimizer_start,
-                    args=optimizer_arguments,
-                    constraints=optimizer_constraints,
-                    options=self.optimizer_options,
-                )
-                P = np.matmul(
-                    back, np.reshape(opt_res.x, (-1, self.n_components), order="F")
-                )
-                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
-        # perform OLS regression
-        T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
-
-        # Re-adjust estimates to original dimensions if data have been compressed
-        if dimensions:
-            P = np.matmul(V[:, 0:p], P)
-        setattr(self, "x_loadings_", P)
-        setattr(self, "x_scores_", T)
-        setattr(self, "proj_mat_", projMat)
-        if self.whiten_data:
-            setattr(self, "whitening_", K)
-        setattr(self, "x_loc_", mX)
-        setattr(self, "x_sca_", sX)
-        setattr(self, "scaling_", scale)
-        setattr(self, "ols_obj_", ols_obj)
-        if flag != "one-block":
-            setattr(self, "y_loc_", my)
-            setattr(self, "y_sca_", sy)
-        if self.return_scaling_object and self.center != "mean":
-            setattr(self, "scaling_object_", centring)
-        return self
-
-    def transform(self, Xn, distance_mat=False):
-        """
-        Computes the dimension reduction of the data Xn based on the fitted sudire model.
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                distance_mat : numpy array 
-                                 distance matrix to represent similarity between observations. 
-                
-                args or kwargs: 
-                                Further parameters to user defined sufdiremeth can be passed here  
-        Returns
-        -------
-        transformed_data : numpy array
-                             the dimension reduced data 
-
-         -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        return np.matmul(Xn, self.x_loadings_)
-
-    def predict(self, Xn, is_distance_mat=False):
-        """
-        predicts the response  on new data Xn
-
-        Parameters
-        ----------
-                Xn : matrix or data frame
-                     Input data to be transformed 
-
-                is_distance_mat : bool 
-                                 if True, Xn is treated as a distance matrix 
-                
-        Returns
-        -------
-        predictions : numpy array 
-                      The predictions from the dimension reduction model
-        -------
-        """
-        Xn = convert_X_input(Xn)
-        (n, p) = Xn.shape
-        (q, h) = self.x_loadings_.shape
-        if p != q:
-            raise (
-                ValueError(
-                    "New data must have same number of columns as the ones the model has been trained with"
-                )
-            )
-        Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
-        ys = self.ols_obj_.predict(Xns)
-        return ys
-
-    @classmethod
-    def _get_param_names(cls):
-        """Get parameter names for the estimator"""
-        # fetch the constructor or the original constructor before
-        # deprecation wrapping if any
-        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
-        if init is object.__init__:
-            # No explicit constructor to introspect
-            return []
-        # introspect the constructor arguments to find the model parameters
-        # to represent
-        init_signature = inspect.signature(init)
-        # Consider the constructor parameters excluding 'self'
-        parameters = [
-            p
-            for p in init_signature.parameters.values()
-            if p.name != "self" and p.kind != p.VAR_KEYWORD
-        ]
-        for p in parameters:
-            if p.kind == p.VAR_POSITIONAL:
-                raise RuntimeError(
-                    "scikit-learn estimators should always "
-                    "specify their parameters in the signature"
-                    " of their __init__ (no varargs)."
-                    " %s with constructor %s doesn't "
-                    " follow this convention." % (cls, init_signature)
-                )
-        # Extract and sort argument names excluding 'self'
-        return sorted([p.name for p in parameters])
-
-    def get_params(self, deep=False):
-        """Get parameters for this estimator.
-        Parameters
-        ----------
-        deep : boolean, optional
-            If True, will return the parameters for this estimator and
-            contained subobjects that are estimators.
-        Returns
-        -------
-        params : mapping of string to any
-            Parameter names mapped to their values.
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        out = dict()
-        for key in self._get_param_names():
-            value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
-                deep_items = value.get_params().items()
-                out.update((key + "__" + k, val) for k, val in deep_items)
-            out[key] = value
-        return out
-
-    def set_params(self, **params):
-        """Set the parameters of this estimator.
-        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
-        
-        Returns
-        -------
-        self
-        ------
-        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
-        """
-        if not params:
-            # Simple optimization to gain speed (inspect is slow)
-            return self
-        valid_params = self.get_params()
-
-        nested_params = defaultdict(dict)  # grouped by prefix
-        for key, value in params.items():
-            key, delim, sub_key = key.partition("__")
-            if key not in valid_params:
-                raise ValueError(
-                    "Invalid parameter %s for estimator %s. "
-                    "Check the list of available parameters "
-                    "with `estimator.get_params().keys()`." % (key, self)
-                )
-            if delim:
-                nested_params[key][sub_key] = value
-            else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        return self
-
-
-def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
-    """
-    Estimates the dimension of the central subspace using 
-    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
-    
-    Parameters
-    ----------
-
-        sudiremeth : str
-                    the SDR method to use in the estimation.
-
-        X :  numpy array or dataframe
-            Input X data
-
-        Y : vector or 1d matrix
-            Input Y data as 
-
-        B : int 
-            Number of bootstrap replications
-
-        kwargs:
-
-            n_slices: number of slices for SIR/SAVE/DR
-
-            center_data, bool : if the data  should be centered 
-
-            scale_data, bool :  if the data should be scaled
-
-            center, string :   which centering('mean', 'median')
-            
-    Returns
-    ----------     
-
-    h : int 
-        representing the dimension of the central subspace
-
-    ----------
-    """
-    if "n_slices" not in kwargs:
-        n_slices = 6
-    else:
-        n_slices = kwargs.pop("n_slices")
-    if "center_data" not in kwargs:
-        center_data = True
-    else:
-        center_data = kwargs.pop("center_data")
-    if "scale_data" not in kwargs:
-        scale_data = True
-    else:
-        scale_data = kwargs.pop("scale_data")
-    if "center" not in kwargs:
-        center = "mean"
-    else:
-        center = kwargs.pop("center")
-    Xn = convert_X_input(Xn)
-    y = convert_y_input(y)
-    n, p = Xn.shape
-
-    mean_diff = []
-    # the subspace of dimension p is the same for all data, so it cannot be compared
-    for k in range(1, max(p, 2)):
-        diff_b = []
-        print("possible dim", k)
-        sdr = sudire(
-            sudiremeth,
-            center_data=center_data,
-            scale_data=scale_data,
-            center=center,
-            n_slices=n_slices,
-            n_components=k,
-        )
-        sdr.fit(Xn, y=y)
-        projMat = sdr.proj_mat_
-
-        for b in range(B):
-            idx = np.random.randint(0, n, n)
-            X_b = Xn[idx, :].copy()
-            y_b = y[idx].copy()
-            sdr_b = sudire(
-                sudiremeth,
-                center_data=center_data,
-                scale_data=scale_data,
-                center=center,
-                n_slices=n_slices,
-                n_components=k,
-            )
-            sdr_b.fit(X_b, y=y_b)
-            projMat_b = sdr_b.proj_mat_
-            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
-            diff_b.append(np.nanmax(sh))
-        mean_diff.append(np.mean(diff_b))
-    return (np.argmin(mean_diff) + 1, mean_diff)
+# -*- coding: utf-8 -*-
+
+import numpy as np
+from scipy.linalg import inv, sqrtm
+import copy
+from sklearn.utils.metaestimators import _BaseComposition
+from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
+from ..preprocessing.robcent import VersatileScaler
+from ._sudire_utils import *
+from scipy.linalg import orth
+import warnings
+import statsmodels.robust.scale as srs
+from scipy.stats import trim_mean
+import dcor as dc
+
+# import Ball
+import statsmodels.api as sm
+import inspect
+from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
+from ..ipopt_temp.jacobian import (
+    FunctionWithApproxJacobianCentral,
+    FunctionWithApproxJacobian,
+)
+from ..dicomo._dicomo_utils import *
+from ..utils.utils import *
+
+
+class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
+
+    """SUDIRE Sufficient Dimension Reduction 
+    
+    The class allows for Sufficient Dimension Reduction using a variety of 
+    methods. If the method requires optimization of a function, 
+    This optimization is done through the Interior Point Optimizer (IPOPT)
+    algorithm. 
+        
+    Parameters
+    ----------
+        sudiremeth: function or class. sudiremeth in this package can also be used, 
+        but user defined functions  can be processed. Built in options are : 
+
+            save : Sliced Average Variance Estimation
+
+            sir  : Slices Inverse Regression
+
+            dr   : Directional Regression 
+
+            iht  : Iterative Hessian Transformations
+
+            dcov-sdr : SDR via Distance Covariance 
+            
+            mdd-sdr : SDR via Martingale Difference Divergence.
+
+            bcov-sdr : SDR via ball covariance
+            
+        n_components : int 
+                      dimension of the central subspace.
+            
+        trimming : float
+                 trimming percentage to be entered as pct/100 
+        
+        optimizer_options : dict 
+                            with options to pass on to the optimizer.Includes: 
+
+        max_iter : int
+                     Maximal number of iterations.
+
+        tol: float
+             relative convergence tolerance
+
+        constr_viol_tol : float
+                        Desired threshold for the constraint violation.
+            
+        optimizer_constraints : dict or list of dicts
+                                 further constraints to be passed on to the 
+                                 optimizer function.
+            
+        optimizer_arguments: dict
+                             extra arguments to be passed to the sudiremeth 
+                             function during optimization.
+        
+        optimizer_start : numpy array
+                         starting value for the optimization.
+        
+        center : str
+             how to center the data. options accepted are options from sprm.preprocessing 
+            
+        center_data : bool 
+                    If True, the data will be centered before the dimension reduction   
+        
+        scale_data : bool
+                    if set to False, convergence to correct optimum  is not a given.
+                    Will throw a warning. 
+            
+        compression : bool
+                     Use internal data compresion step for flat data. 
+        
+        n_slices :  int
+                    The number of slices for SAVE, SIR, DR
+    
+        is_distance_mat : bool 
+                         if the inputed matrices for x and y are distance matrices.
+            
+        dmetric :  str
+                 distance metric used internally. Defaults to 'euclidean'
+        
+        fit_ols :  bool 
+                 if True, an OLS model is fitted after the dimension reduction.
+        
+        copy : bool
+              Whether to make a deep copy of the input data or not. 
+        
+        verbose : bool
+                 Set to True prints the iteration number. 
+        
+        return_scaling_object: bool. 
+                                If True, the scaling object will be return after the 
+                                dimension reduction. 
+
+    Attributes
+    ----------
+    Attributes always provided 
+        -  `x_loadings_`: Estimated basis of the central subspace 
+        -  `x_scores_`: The projected X data. 
+        -  `x_loc_`:  location estimate for X 
+        -  `x_sca_`:  scale estimate for X
+        - ` ols_obj` : fitted OLS objected
+        -  `y_loc_`: y location estimate
+        -  `y_sca_`: y scale estimate
+
+    Attributes created only when corresponding input flags are `True`:
+        -   `whitening_`: whitened data matrix (usually denoted K)
+        -   `scaling_object_`: scaling object from `VersatileScaler`  
+        
+    
+        
+    
+    """
+
+    def __init__(
+        self,
+        sudiremeth="dcov-sdr",
+        n_components=2,
+        trimming=0,
+        optimizer_options={"max_iter": 1000},
+        optimizer_constraints=None,
+        optimizer_arguments=None,
+        optimizer_start=None,
+        center_data=True,
+        center="mean",
+        scale_data=True,
+        whiten_data=False,
+        compression=False,
+        n_slices=6,
+        dmetric="euclidean",
+        fit_ols=True,
+        copy=True,
+        response_type="continuous",
+        verbose=True,
+        return_scaling_object=True,
+    ):
+        # Called arguments
+        self.sudiremeth = sudiremeth
+        self.n_components = n_components
+        self.trimming = trimming
+        self.optimizer_options = optimizer_options
+        self.optimizer_constraints = optimizer_constraints
+        self.optimizer_arguments = optimizer_arguments
+        self.optimizer_start = optimizer_start
+        self.center = center
+        self.center_data = center_data
+        self.scale_data = scale_data
+        self.whiten_data = whiten_data
+        self.compression = compression
+        self.n_slices = n_slices
+        self.dmetric = dmetric
+        self.fit_ols = fit_ols
+        self.copy = copy
+        self.response_type = response_type
+        self.verbose = verbose
+        self.return_scaling_object = return_scaling_object
+
+        # Other global parameters
+        self.licenter = ["mean", "median"]
+        if not (self.center in self.licenter):
+            raise (
+                ValueError(
+                    'Only location estimator classes allowed are: "mean", "median"'
+                )
+            )
+        self.limeths = [
+            "sir",
+            "save",
+            "dr",
+            "dcov-sdr",
+            "bcov-sdr",
+            "mdd-sdr",
+            "phd",
+            "iht",
+        ]
+        if not (self.sudiremeth in self.limeths) and not callable(self.sudiremeth):
+            raise (
+                ValueError(
+                    'Only SDR methods allowed are : "sir", "save", "dr", "dcov-sdr","bcov-sdr", "mdd-sdr", "iht","phd"'
+                )
+            )
+
+    def fit(self, X, y, *args, **kwargs):
+
+        """
+        Fit a Sufficient Dimension Reduction Model. 
+        
+        Parameters
+        ----------
+                X : matrix or data frame 
+                    Input data of predictors  
+
+                y :  vector or 1D matrix
+                    Response data
+                
+                args or kwargs : 
+                                Further parameters to user defined sudiremeth can be passed here  
+        Returns
+        -------
+            self
+        
+        -------
+        """
+
+        # Collect optional fit arguments
+
+        if "dmetric" not in kwargs:
+            dmetric = self.dmetric
+        else:
+            dmetric = kwargs.get("dmetric")
+        if "biascorr" not in kwargs:
+            biascorr = False
+        else:
+            biascorr = kwargs.get("biascorr")
+        if "flag" not in kwargs:
+            flag = "two-block"
+        else:
+            flag = kwargs.get("flag")
+        if "is_distance_mat" not in kwargs:
+            is_distance_mat = False
+        else:
+            is_distance_mat = kwargs.pop("is_distance_mat")
+        # Initiate some parameters and data frames
+        if self.copy:
+            X0 = copy.deepcopy(X)
+        else:
+            X0 = X
+        self.X0 = X0
+        X = convert_X_input(X0)
+        n, p = X0.shape
+        trimming = self.trimming
+
+        # Check dimensions
+        if self.n_components > min(n, p):
+            raise (
+                MyException(
+                    "number of components cannot exceed number of variables or sample size"
+                )
+            )
+        # Pre-processing adjustment if whitening
+        if self.whiten_data:
+            self.center_data = True
+            self.scale_data = False
+            self.compression = False
+            print("All results produced are for whitened data")
+        # Store original X data mean and varcov matrix.
+        varmatx = np.cov(X, rowvar=0)
+        meanx = X.mean(axis=0)
+        N2 = inv(sqrtm(varmatx))
+
+        # Data Compression for flat tables if required
+        if (p > n) and self.compression:
+            V, S, U = np.linalg.svd(X.T, full_matrices=False)
+            X = np.matmul(U.T, np.diag(S))
+            n, p = X.shape
+
+            if (srs.mad(X) == 0).any():
+                warnings.warn(
+                    "Due to low scales in data, compression would induce zero scales."
+                    + "\n"
+                    + "Proceeding without compression."
+                )
+                dimensions = False
+                if copy:
+                    X = copy.deepcopy(X0)
+                else:
+                    X = X0
+            else:
+                dimensions = True
+        else:
+            dimensions = False
+
+            # Centring and scaling
+            # centering :
+        if self.center_data:
+            if self.center != "mean":
+                centring = VersatileScaler(
+                    center=self.center, scale="None", trimming=self.trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                Xs = X - trim_mean(X, self.trimming, axis=0)
+                mX = trim_mean(X, self.trimming, axis=0)
+                sX = np.sqrt(np.diag(varmatx))
+        else:
+            Xs = X0
+            mX = np.zeros((1, p))
+            sX = np.ones((1, p))
+        if self.scale_data:
+            if self.center == "mean":
+                scale = "std"
+                N2 = inv(sqrtm(varmatx))
+                Xs = np.matmul(Xs, N2)
+            elif (self.center == "median") or (self.center == "l1median"):
+                scale = "mad"
+                centring = VersatileScaler(
+                    center=self.center, scale=scale, trimming=trimming
+                )
+                Xs = centring.fit_transform(X0)
+                mX = centring.col_loc_
+                sX = centring.col_sca_
+            else:
+                raise (
+                    MyException(
+                        'centering options have to be either "mean", "median", or "l1median"'
+                    )
+                )
+        else:
+            scale = "None"
+            warnings.warn("Without scaling, convergence to optima is not given")
+        # Initiate centring object and scale X data
+
+        if self.whiten_data:
+            V, S, U = np.linalg.svd(Xs.T, full_matrices=False)
+            del U
+            K = (V / S)[:, :p]
+            del S
+            Xs = np.matmul(Xs, K)
+            Xs *= np.sqrt(p)
+        # Matrix that maps directions for Xs to directions for X
+        if self.whiten_data:
+            back = K * np.sqrt(p)
+        elif not self.scale_data:
+            back = np.identity(p)
+        elif self.center == "mean":
+            back = N2
+        else:
+            back = np.diag(1 / np.where(sX == 0, 1, sX))
+        # Pre-process y data
+        ny = y.shape[0]
+        y = convert_y_input(y)
+        if len(y.shape) < 2:
+            y = np.array(y).reshape((ny, 1))
+        if ny != n:
+            raise (MyException("X and y number of rows must agree"))
+        # Pre-process y data when available
+        if flag != "one-block":
+            ny = y.shape[0]
+            y = convert_y_input(y)
+            if len(y.shape) < 2:
+                y = np.array(y).reshape((ny, 1))
+            if ny != n:
+                raise (MyException("X and y number of rows must agree"))
+            if self.copy:
+                y0 = copy.deepcopy(y)
+                self.y0 = y0
+            if self.center_data:
+                ys = y  # dont center y
+                my = np.mean(y, axis=0)
+                sy = np.sqrt(np.var(y, axis=0))
+            else:
+                ys = y
+                my = 0
+                sy = 1
+            ys = ys.astype("float64")
+        else:
+            ys = None
+        if self.sudiremeth == "sir":
+            P = SIR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            P = np.matmul(back, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "save":
+            P = SAVE(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            P = np.matmul(back, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "dr":
+            P = DR(
+                Xs,
+                ys,
+                self.n_slices,
+                self.n_components,
+                self.response_type,
+                self.center_data,
+                self.scale_data,
+            )
+            P = np.matmul(back, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "phd":
+            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            P = np.matmul(back, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        elif self.sudiremeth == "iht":
+            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            P = np.matmul(back, P)
+            projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+            T = np.matmul(self.X0, P)
+        else:  # SDR obtained through optimization of some function
+
+            ## choose starting value for DCOV-SDR
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
+            if optimizer_start is None:
+                save_start = SAVE(
+                    Xs, ys, 3, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    save_start = np.matmul(N2, save_start)
+                sir_start = SIR(
+                    Xs, ys, 6, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    sir_start = np.matmul(N2, sir_start)
+                beta_save = orth(save_start)
+                dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
+                beta_sir = orth(sir_start)
+                dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
+                DR_start = DR(
+                    Xs, y, 6, self.n_components, self.response_type,
+                    self.center_data, self.scale_data
+                )
+                if self.scale_data:
+                    DR_start = np.matmul(N2, DR_start)
+                beta_DR = orth(DR_start)
+                dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
+                if dc_save >= dc_sir and dc_save >= dc_DR:
+                    optimizer_start = save_start.flatten(order="F")
+                elif dc_sir >= dc_save and dc_sir >= dc_DR:
+                    optimizer_start = sir_start.flatten(order="F")
+                else:
+                    optimizer_start = DR_start.flatten(order="F")
+            ## add constraints for the optimization
+            if optimizer_constraints is None:
+                const_x = []
+                const_z = []
+                for i in range(0, self.n_components):
+                    for j in range(0, self.n_components):
+                        const_x.append(
+                            {
+                                "type": "eq",
+                                "fun": const_xscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )  # change const2 to const_func
+                        const_z.append(
+                            {
+                                "type": "eq",
+                                "fun": const_zscale,
+                                "args": (Xs, self.n_components, i, j),
+                            }
+                        )
+                if self.scale_data:
+                    optimizer_constraints = tuple(const_z)
+                else:
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
+                N2 = inv(sqrtm(varmatx))
+                optimizer_arguments = (
+                    Xs,
+                    ys,
+                    self.n_components,
+                    N2,
+                    is_distance_mat,
+                    self.trimming,
+                    self.center,
+                    dmetric,
+                    biascorr,
+                )
+            # perform DCOV-SDR optimization
+            res = minimize_ipopt(
+                dcov_trim,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
+                options=self.optimizer_options,
+            )
+            dcov_res = np.matmul(
+                back, np.reshape(res.x, (-1, self.n_components), order="F")
+            )
+            if self.sudiremeth == "dcov-sdr":
+                P = dcov_res
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "bcov-sdr":
+                optimizer_start = dcov_res.flatten(order="F")
+                res_ball = minimize_ipopt(
+                    ballcov_func,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                P = np.matmul(
+                    back, np.reshape(res_ball.x, (-1, self.n_components), order="F")
+                )
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            elif self.sudiremeth == "mdd-sdr":
+                optimizer_start = dcov_res.flatten(order="F")
+                res_mdd = minimize_ipopt(
+                    mdd_trim,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                P = np.matmul(
+                    back, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
+                )
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+            else:  ## user defined function
+                optimizer_start = dcov_res.flatten(order="F")
+                opt_res = minimize_ipopt(
+                    self.sudiremeth,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
+                    options=self.optimizer_options,
+                )
+                P = np.matmul(
+                    back, np.reshape(opt_res.x, (-1, self.n_components), order="F")
+                )
+                projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
+                T = np.matmul(self.X0, P)
+        # perform OLS regression
+        T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
+        ols_obj = sm.OLS(ys, T_reg).fit()
+
+        # Re-adjust estimates to original dimensions if data have been compressed
+        if dimensions:
+            P = np.matmul(V[:, 0:p], P)
+        setattr(self, "x_loadings_", P)
+        setattr(self, "x_scores_", T)
+        setattr(self, "proj_mat_", projMat)
+        if self.whiten_data:
+            setattr(self, "whitening_", K)
+        setattr(self, "x_loc_", mX)
+        setattr(self, "x_sca_", sX)
+        setattr(self, "scaling_", scale)
+        setattr(self, "ols_obj_", ols_obj)
+        if flag != "one-block":
+            setattr(self, "y_loc_", my)
+            setattr(self, "y_sca_", sy)
+        if self.return_scaling_object and self.center != "mean":
+            setattr(self, "scaling_object_", centring)
+        return self
+
+    def transform(self, Xn, distance_mat=False):
+        """
+        Computes the dimension reduction of the data Xn based on the fitted sudire model.
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                distance_mat : numpy array 
+                                 distance matrix to represent similarity between observations. 
+                
+                args or kwargs: 
+                                Further parameters to user defined sufdiremeth can be passed here  
+        Returns
+        -------
+        transformed_data : numpy array
+                             the dimension reduced data 
+
+         -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        return np.matmul(Xn, self.x_loadings_)
+
+    def predict(self, Xn, is_distance_mat=False):
+        """
+        predicts the response  on new data Xn
+
+        Parameters
+        ----------
+                Xn : matrix or data frame
+                     Input data to be transformed 
+
+                is_distance_mat : bool 
+                                 if True, Xn is treated as a distance matrix 
+                
+        Returns
+        -------
+        predictions : numpy array 
+                      The predictions from the dimension reduction model
+        -------
+        """
+        Xn = convert_X_input(Xn)
+        (n, p) = Xn.shape
+        (q, h) = self.x_loadings_.shape
+        if p != q:
+            raise (
+                ValueError(
+                    "New data must have same number of columns as the ones the model has been trained with"
+                )
+            )
+        Xns = self.transform(Xn)
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
+        ys = self.ols_obj_.predict(Xns)
+        return ys
+
+    @classmethod
+    def _get_param_names(cls):
+        """Get parameter names for the estimator"""
+        # fetch the constructor or the original constructor before
+        # deprecation wrapping if any
+        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
+        if init is object.__init__:
+            # No explicit constructor to introspect
+            return []
+        # introspect the constructor arguments to find the model parameters
+        # to represent
+        init_signature = inspect.signature(init)
+        # Consider the constructor parameters excluding 'self'
+        parameters = [
+            p
+            for p in init_signature.parameters.values()
+            if p.name != "self" and p.kind != p.VAR_KEYWORD
+        ]
+        for p in parameters:
+            if p.kind == p.VAR_POSITIONAL:
+                raise RuntimeError(
+                    "scikit-learn estimators should always "
+                    "specify their parameters in the signature"
+                    " of their __init__ (no varargs)."
+                    " %s with constructor %s doesn't "
+                    " follow this convention." % (cls, init_signature)
+                )
+        # Extract and sort argument names excluding 'self'
+        return sorted([p.name for p in parameters])
+
+    def get_params(self, deep=False):
+        """Get parameters for this estimator.
+        Parameters
+        ----------
+        deep : boolean, optional
+            If True, will return the parameters for this estimator and
+            contained subobjects that are estimators.
+        Returns
+        -------
+        params : mapping of string to any
+            Parameter names mapped to their values.
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        out = dict()
+        for key in self._get_param_names():
+            value = getattr(self, key, None)
+            if deep and hasattr(value, "get_params"):
+                deep_items = value.get_params().items()
+                out.update((key + "__" + k, val) for k, val in deep_items)
+            out[key] = value
+        return out
+
+    def set_params(self, **params):
+        """Set the parameters of this estimator.
+        Copied from ScikitLearn, adapted to avoid calling 'deep=True'
+        
+        Returns
+        -------
+        self
+        ------
+        Copied from ScikitLlearn instead of imported to avoid 'deep=True'
+        """
+        if not params:
+            # Simple optimization to gain speed (inspect is slow)
+            return self
+        valid_params = self.get_params()
+
+        nested_params = defaultdict(dict)  # grouped by prefix
+        for key, value in params.items():
+            key, delim, sub_key = key.partition("__")
+            if key not in valid_params:
+                raise ValueError(
+                    "Invalid parameter %s for estimator %s. "
+                    "Check the list of available parameters "
+                    "with `estimator.get_params().keys()`." % (key, self)
+                )
+            if delim:
+                nested_params[key][sub_key] = value
+            else:
+                setattr(self, key, value)
+                valid_params[key] = value
+        for key, sub_params in nested_params.items():
+            valid_params[key].set_params(**sub_params)
+        return self
+
+
+def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
+    """
+    Estimates the dimension of the central subspace using 
+    the sudiremeth.  This approach is based on the bootstrap method of Sheng and Yin (2016)
+    
+    Parameters
+    ----------
+
+        sudiremeth : str
+                    the SDR method to use in the estimation.
+
+        X :  numpy array or dataframe
+            Input X data
+
+        Y : vector or 1d matrix
+            Input Y data as 
+
+        B : int 
+            Number of bootstrap replications
+
+        kwargs:
+
+            n_slices: number of slices for SIR/SAVE/DR
+
+            center_data, bool : if the data  should be centered 
+
+            scale_data, bool :  if the data should be scaled
+
+            center, string :   which centering('mean', 'median')
+            
+    Returns
+    ----------     
+
+    h : int 
+        representing the dimension of the central subspace
+
+    ----------
+    """
+    if "n_slices" not in kwargs:
+        n_slices = 6
+    else:
+        n_slices = kwargs.pop("n_slices")
+    if "center_data" not in kwargs:
+        center_data = True
+    else:
+        center_data = kwargs.pop("center_data")
+    if "scale_data" not in kwargs:
+        scale_data = True
+    else:
+        scale_data = kwargs.pop("scale_data")
+    if "center" not in kwargs:
+        center = "mean"
+    else:
+        center = kwargs.pop("center")
+    Xn = convert_X_input(Xn)
+    y = convert_y_input(y)
+    n, p = Xn.shape
+
+    mean_diff = []
+    # the subspace of dimension p is the same for all data, so it cannot be compared
+    for k in range(1, max(p, 2)):
+        diff_b = []
+        print("possible dim", k)
+        sdr = sudire(
+            sudiremeth,
+            center_data=center_data,
+            scale_data=scale_data,
+            center=center,
+            n_slices=n_slices,
+            n_components=k,
+        )
+        sdr.fit(Xn, y=y)
+        projMat = sdr.proj_mat_
+
+        for b in range(B):
+            idx = np.random.randint(0, n, n)
+            X_b = Xn[idx, :].copy()
+            y_b = y[idx].copy()
+            sdr_b = sudire(
+                sudiremeth,
+                center_data=center_data,
+                scale_data=scale_data,
+                center=center,
+                n_slices=n_slices,
+                n_components=k,
+            )
+            sdr_b.fit(X_b, y=y_b)
+            projMat_b = sdr_b.proj_mat_
+            uh, sh, vh = np.linalg.svd(projMat - projMat_b)
+            diff_b.append(np.nanmax(sh))
+        mean_diff.append(np.mean(diff_b))
+    return (np.argmin(mean_diff) + 1, mean_diff)
-- 
2.43.0


From 52f06ff4ca3cb6b075010806bf193394d6af9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 55/68] fix: plots annotate every named case, the last one
 included

---
 src/direpack/plot/ppdire_plot.py |  8 ++++----
 src/direpack/plot/sprm_plot.py   | 12 ++++++------
 src/direpack/plot/sudire_plot.py |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 147bbf3..b61f2ad 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -93,10 +93,10 @@ class ppdire_plot(ppdire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -143,10 +143,10 @@ class ppdire_plot(ppdire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 948ebdc..d4581aa 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -137,10 +137,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -256,10 +256,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
@@ -325,10 +325,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (name_indices[i+1],wc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index d4024c3..ac39ebb 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -93,10 +93,10 @@ class sudire_plot(sudire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -141,10 +141,10 @@ class sudire_plot(sudire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
-- 
2.43.0


From a12ef5e279bf8f62588cc76dc5f7f162cd5f314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 56/68] fix: plot_caseweights writes each training name at its
 own bar

---
 src/direpack/plot/sprm_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index d4581aa..99c5ade 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -326,7 +326,7 @@ class sprm_plot(sprm):
         if len(names)>0:
             if not(onlyval):
                 for i in range(0,len(names)):
-                    ax1.annotate(names[i], (name_indices[i+1],wc[i]))
+                    ax1.annotate(names[i], (name_indices[i],wc[i]))
         if len(namesv)>0:
             for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
-- 
2.43.0


From 1b2681ed08b06c9fce44524d347db7ae5f117e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 57/68] fix: plot_coeffs with truncation labels the bars it
 draws

---
 src/direpack/plot/sprm_plot.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 99c5ade..7200701 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -170,14 +170,13 @@ class sprm_plot(sprm):
        
         b_orig = np.array(getattr(self.res_sprm,entity)).reshape(-1)
         if truncation > 0:
-            ind_sort = np.argsort(np.argsort(b_orig))
-            b_sort = np.sort(b_orig)
+            ind_sort = np.argsort(b_orig)
             left = np.ceil(p*(truncation/2)).astype(int)
             right = (p-np.ceil(p*(truncation/2)).astype(int))
-            b_plot = b_sort[np.union1d(np.arange(0,left),
-                                       np.arange(right,p))]
-            x_labels = np.union1d(x_plot[ind_sort[0:left]],
-                                x_plot[ind_sort[right:p]])
+            ind_plot = ind_sort[np.union1d(np.arange(0,left),
+                                           np.arange(right,p))]
+            b_plot = b_orig[ind_plot]
+            x_labels = x_plot[ind_plot]
             x_plot = np.arange(0,len(x_labels))
             ax1.bar(x_plot,b_plot,color=self.colors[2],edgecolor=self.colors[4],tick_label=x_labels)
         else:
-- 
2.43.0


From 7942ae652193dc676cb130e2ca84e6bcc35a6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 58/68] fix: plot_coeffs accepts columns as list or tuple, as
 documented

---
 src/direpack/plot/sprm_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 7200701..3c72da1 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -163,8 +163,8 @@ class sprm_plot(sprm):
         ax1 = fig.add_subplot(111)
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
-            x_plot = columns[self.res_sprm.non_zero_scale_vars_]
-            x_labels = columns[self.res_sprm.non_zero_scale_vars_]
+            x_plot = np.array(columns)[self.res_sprm.non_zero_scale_vars_]
+            x_labels = x_plot
         else:
             x_plot = np.arange(0,p)
        
-- 
2.43.0


From 32a1e37b2308f9b2b6fe2af450527c02cac323db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 59/68] fix: raise the ValueErrors the plots construct for
 missing new cases and unknown modes

---
 src/direpack/plot/ppdire_plot.py | 4 ++--
 src/direpack/plot/sprm_plot.py   | 8 ++++----
 src/direpack/plot/sudire_plot.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index b61f2ad..3fc277d 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -73,7 +73,7 @@ class ppdire_plot(ppdire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -131,7 +131,7 @@ class ppdire_plot(ppdire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_ppdire.transform(Xn))
             labelvr = label + ' Test'  
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 3c72da1..df5e20e 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -107,7 +107,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -230,7 +230,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_sprm.transform(Xn))
             labelvr = label[0] + ' Test' + ' Regular'
@@ -300,13 +300,13 @@ class sprm_plot(sprm):
             elif mode == 'y':
                 wc = self.res_sprm.y_caseweights_
             else:
-                ValueError('Options for mode are overall, x or y')
+                raise ValueError('Options for mode are overall, x or y')
             labelc = label[0] + ' Training' 
         else:
             wc = []
             labelc=[]
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             wv = self.res_sprm.weightnewx(Xn)
             labelv = label[0] + ' Test'
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index ac39ebb..8df4fe9 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -73,7 +73,7 @@ class sudire_plot(sudire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -130,7 +130,7 @@ class sudire_plot(sudire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
             Tv = np.array(self.res_sudire.transform(Xn))
             ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
-- 
2.43.0


From d4acc1a5f5ed79597d3dfb09c38de4b12759341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 60/68] fix: minimize_ipopt does not change the caller's
 options

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index a855b0c..e77f089 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -205,8 +205,8 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
 
     cl, cu = get_constraint_bounds(constraints, x0)
 
-    if options is None:
-        options = {}
+    # work on a copy: the caller's options are completed and renamed below
+    options = {} if options is None else dict(options)
 
     nlp = cyipopt.Problem(n = len(_x0),
                           m = len(cl),
-- 
2.43.0


From e792a09aa5fa503dd36a1168bc7b4b440a4cada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 61/68] fix: the finite difference gradient of minimize_ipopt
 passes keyword arguments on

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index e77f089..a35f13a 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -56,7 +56,7 @@ class IpoptProblemWrapper(object):
             raise NotImplementedError('Using hessian matrixes is not yet implemented!')
         if jac is None:
             #fun = FunctionWithApproxJacobian(fun, epsilon=eps, verbose=False)
-            jac = lambda x0, *args, **kwargs: approx_fprime(x0, fun, eps, *args, **kwargs)
+            jac = lambda x0, *args, **kwargs: approx_fprime(x0, lambda x: fun(x, *args, **kwargs), eps)
         elif jac is True:
             self.fun_with_jac = fun
         elif not callable(jac):
-- 
2.43.0


From 891e80e3afdb02d0df53c852b964d8d331655a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 62/68] fix: capi stores centring and follows set_params of
 projection_index and pi_arguments

---
 src/direpack/ppdire/capi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index b44401d..b59b0d3 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -66,6 +66,7 @@ class capi(_BaseComposition, BaseEstimator):
         self.projection_index = projection_index
         self.pi_arguments = pi_arguments
         self.weights = weights
+        self.centring = centring
         self.most = self.projection_index(**self.pi_arguments)
         self.scaling = scaling
         self.options = options
@@ -86,6 +87,8 @@ class capi(_BaseComposition, BaseEstimator):
             options = np.arange(1, 4)
         else:
             options = np.array(self.options, ndmin=1)
+        # projection_index and pi_arguments may have been reset by set_params
+        self.most = self.projection_index(**self.pi_arguments)
         moments = np.zeros(6)
         fit_arguments = {"order": 0, "y": y}
         fit_arguments = {**kwargs, **fit_arguments}
-- 
2.43.0


From bc315b226fb850196be9fc1ade1cf4456f4aa0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 63/68] fix: ppdire does not write into its optimizer_options

---
 src/direpack/ppdire/ppdire.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 7d9da14..502e0f1 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -425,8 +425,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
-            if 'ndir' not in self.optimizer_options:
-                self.optimizer_options['ndir'] = 1000
+            ndir = self.optimizer_options.get('ndir', 1000)
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
@@ -435,7 +434,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             stop0c = np.arccos(optrange[1])
             anglestart = max(stop0c,stop0s)
             anglestop = max(stop1c,stop1s)
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=False)            
+            nangle = np.linspace(anglestart,anglestop,ndir,endpoint=False)            
             alphamat = np.array([np.cos(nangle), np.sin(nangle)])
             opt_args['_stop0c'] = stop0c
             opt_args['_stop0s'] = stop0s
@@ -451,14 +450,14 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-                nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+                nangle = np.linspace(anglestart,anglestop,ndir,endpoint=True)
                 alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
                 if optmax != 1:
                     alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
-            opt_args['ndir'] = self.optimizer_options['ndir'],
+            opt_args['ndir'] = ndir,
             opt_args['maxiter'] = self.optimizer_options['maxiter']
             if type(opt_args['ndir'] is tuple): 
                 opt_args['ndir'] = opt_args['ndir'][0]
@@ -467,7 +466,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             grid_args_2 = { 
                      'alpha': self.alpha,
                      'alphamat': alphamat2,
-                     'ndir': self.optimizer_options['ndir'],
+                     'ndir': ndir,
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
                      'dmetric' : 'euclidean',
-- 
2.43.0


From f548e404d4b093707466586ee702800e69bea13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 64/68] fix: dicomo's bias corrected co-kurtosis is unit free
 and equals the corrected kurtosis when y is x

---
 src/direpack/dicomo/dicomo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 519bc6a..cb538d3 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -280,12 +280,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                     
                 if self.mode in ('cok','cos'):
-                    x2sd = np.sqrt(trim_mom(x,x,locest,2,trimming,option,biascorr))
-                    y2sd = np.sqrt(trim_mom(y,y,locest,2,trimming,option,biascorr))
+                    # as for the kurtosis, the correction of the co-kurtosis refers to uncorrected scales
+                    sdcorr = biascorr and self.mode == 'cos'
+                    x2sd = np.sqrt(trim_mom(x,x,locest,2,trimming,option,sdcorr))
+                    y2sd = np.sqrt(trim_mom(y,y,locest,2,trimming,option,sdcorr))
                         
                     if ((self.mode == 'cok') and biascorr): # biascorr is only exact if standardized
                         como -= como/(ntrim**2)
-                        como -= 3*(ntrim-1)**2.0 / ((ntrim-2)*(ntrim-3))
 
                 
                 if mode in ['corr','continuum']:
@@ -439,6 +440,8 @@ class dicomo(_BaseComposition,BaseEstimator):
             iter_stop_1 = order - option
             como /= np.power(x2sd,iter_stop_1)
             como /= np.power(y2sd,iter_stop_2)
+            if ((self.mode == 'cok') and biascorr and self.est == 'arithmetic'):
+                como -= 3*(ntrim-1)**2.0 / ((ntrim-2)*(ntrim-3))
             if ((self.mode == 'cok') and not Fisher): # Not very meaningful for co-moment
                 como += 3
             self.moment_=como
-- 
2.43.0


From 0d1e06fca8987c1e4b646a08403348de2ecf0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 65/68] fix: dicomo's distance standard deviation takes the
 root in the fast algorithm too

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index cb538d3..f9cad17 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -349,6 +349,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
                     else:
                         xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
+                    if self.mode == 'std':
+                        xmom = np.sqrt(xmom)
                     self.moment_ = xmom
                 if mode !='mom':
                     if 'y' not in kwargs:
-- 
2.43.0


From c73255f6998df4c6c74592dd2a404a04c376165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 66/68] fix: ppdire and sudire leave their settings alone when
 whitening the data

---
 src/direpack/ppdire/ppdire.py | 17 +++++++------
 src/direpack/sudire/sudire.py | 47 ++++++++++++++++++-----------------
 2 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 502e0f1..e9ad330 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -312,14 +312,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Whitening step is recommended for ICA')
             
         # Pre-processing adjustment if whitening
+        center_data, scale_data, compression = self.center_data, self.scale_data, self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            scale_data = False
+            compression = False
             print('All results produced are for whitened data')
         
         # Centring and scaling
-        if self.scale_data:
+        if scale_data:
             if self.center=='mean':
                 scale = 'std'
             elif ((self.center=='median')|(self.center=='l1median')):
@@ -329,7 +330,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Without scaling, convergence to optima is not given')
             
          # Data Compression for flat tables if required                
-        if ((p>n) and self.compression):
+        if ((p>n) and compression):
             V,S,U = np.linalg.svd(X.T,full_matrices=False)
             X = np.matmul(U.T,np.diag(S))
             n,p = X.shape
@@ -350,7 +351,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         # Initiate centring object and scale X data 
         centring = VersatileScaler(center=self.center,scale=scale,trimming=trimming)      
   
-        if self.center_data:
+        if center_data:
             Xs = centring.fit_transform(X)
             mX = centring.col_loc_
             sX = centring.col_sca_
@@ -384,7 +385,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
                 
-            if self.center_data:
+            if center_data:
                 ys = centring.fit_transform(y)
                 my = centring.col_loc_
                 sy = centring.col_sca_ 
@@ -707,7 +708,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
             bi = B[:,h-1:h]
-            if self.center_data:
+            if center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index c16a44d..a9df71b 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -263,10 +263,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         # Pre-processing adjustment if whitening
+        center_data, scale_data, compression = self.center_data, self.scale_data, self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            scale_data = False
+            compression = False
             print("All results produced are for whitened data")
         # Store original X data mean and varcov matrix.
         varmatx = np.cov(X, rowvar=0)
@@ -274,7 +275,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         N2 = inv(sqrtm(varmatx))
 
         # Data Compression for flat tables if required
-        if (p > n) and self.compression:
+        if (p > n) and compression:
             V, S, U = np.linalg.svd(X.T, full_matrices=False)
             X = np.matmul(U.T, np.diag(S))
             n, p = X.shape
@@ -297,7 +298,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
             # Centring and scaling
             # centering :
-        if self.center_data:
+        if center_data:
             if self.center != "mean":
                 centring = VersatileScaler(
                     center=self.center, scale="None", trimming=self.trimming
@@ -313,7 +314,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = X0
             mX = np.zeros((1, p))
             sX = np.ones((1, p))
-        if self.scale_data:
+        if scale_data:
             if self.center == "mean":
                 scale = "std"
                 N2 = inv(sqrtm(varmatx))
@@ -347,7 +348,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Matrix that maps directions for Xs to directions for X
         if self.whiten_data:
             back = K * np.sqrt(p)
-        elif not self.scale_data:
+        elif not scale_data:
             back = np.identity(p)
         elif self.center == "mean":
             back = N2
@@ -371,7 +372,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.copy:
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
-            if self.center_data:
+            if center_data:
                 ys = y  # dont center y
                 my = np.mean(y, axis=0)
                 sy = np.sqrt(np.var(y, axis=0))
@@ -389,8 +390,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
             P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
@@ -402,8 +403,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
             P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
@@ -415,19 +416,19 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
             P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
             P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
+            P = IHT(Xs, ys, self.n_components, center_data, scale_data)
             P = np.matmul(back, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -440,15 +441,15 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if optimizer_start is None:
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
+                    center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
                     Xs, ys, 6, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
+                    center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     sir_start = np.matmul(N2, sir_start)
                 beta_save = orth(save_start)
                 dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
@@ -456,9 +457,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
                     Xs, y, 6, self.n_components, self.response_type,
-                    self.center_data, self.scale_data
+                    center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     DR_start = np.matmul(N2, DR_start)
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
@@ -488,7 +489,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                                 "args": (Xs, self.n_components, i, j),
                             }
                         )
-                if self.scale_data:
+                if scale_data:
                     optimizer_constraints = tuple(const_z)
                 else:
                     optimizer_constraints = tuple(const_x)
-- 
2.43.0


From 568120541619f6287e5210c408aa945bea5f3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 67/68] fix: the argument h of ppdire.fit overrides
 n_components for that call only

---
 src/direpack/ppdire/ppdire.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index e9ad330..61ec87e 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -227,7 +227,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             h = self.n_components
         else:
             h = kwargs.pop('h')
-            self.n_components = h
             
         if 'dmetric' not in kwargs:
             dmetric = 'euclidean'
-- 
2.43.0


From 6a39ec760d919172990aa76c61ec672ef28074f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 68/68] fix: ppdire.fit passes the distance metric named by the
 caller to the projection index

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 61ec87e..292a95f 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -420,7 +420,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     'alpha': self.alpha,
                     'trimming': self.trimming,
                     'biascorr': biascorr, 
-                    'dmetric' : 'euclidean',
+                    'dmetric' : dmetric,
                     }
         
         if self.optimizer=='grid':
@@ -469,7 +469,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'ndir': ndir,
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
-                     'dmetric' : 'euclidean',
+                     'dmetric' : dmetric,
                      '_stop0c' : stop0c,
                      '_stop0s' : stop0s,
                      '_stop1c' : stop1c,
-- 
2.43.0

