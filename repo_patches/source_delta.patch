From dff685af07bf6856d36e2eea28ea80c6b3d7718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 01/60] fix: use the first lag beyond the WX terms as
 instrument when other endogenous variables are present

set_endog lagged W^(slx_lags+1) x again, so that the instruments reported
as W2_x were W^3 x and the W^2 x instruments were skipped.
---
 spreg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 3fbf27a..7d4e126 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -683,7 +683,8 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
     # spatial and non-spatial instruments
     if issubclass(type(yend), np.ndarray):
         if slx_lags > 0:
-            lag_x, lag_xq = get_lags_split(w, x, slx_lags+1, slx_lags)
+            lag_x = get_lags(w, x, slx_lags)
+            lag_xq = lag_x[:, -x.shape[1]:]  # highest order included in the model
         else:
             lag_xq = x
         if lag_q:
-- 
2.43.0


From 11dc274f9d58e22da52848cc156e4381b8d37d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 02/60] fix: GM_Lag with a selection of lagged regressors and
 slx_lags > 1

The selection mask was applied to one order of lags only and did not match
the columns of the higher orders (IndexError).
---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 7d4e126..676e050 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -717,7 +717,7 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
             if slx_vars.shape[0] != x.shape[1]:
                 raise Exception("slx_vars incompatible with x column dimensions")
             
-            lag_x = lag_x[:, slx_vars]
+            lag_x = lag_x[:, np.tile(slx_vars, slx_lags)]
             return yend, q, lag_x
 
 
-- 
2.43.0


From 42036c71a69a16f1494688640984c42a9adfc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 03/60] fix: names of the extra lags returned by flex_wx follow
 the order of their columns

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 097dace..83ef655 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -1004,7 +1004,7 @@ def flex_wx(w,x,name_x,constant=True,slx_lags=1,slx_vars="All",panel=False,q_lag
             bigq = lag_xq
             qlagname2 = []
         xlagname,qlagname = set_name_spatial_lags(xnamework,slx_lags, additional=q_lags)
-        bignameq = qlagname2 + qlagname 
+        bignameq = qlagname + qlagname2
         bigx = np.hstack((x,lagx))
         bignamex = name_x + xlagname
         return(bigx,bignamex,bigq,bignameq)
-- 
2.43.0


From 57d86622b5909510490ddf4c35aaaa3ebff20c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 04/60] fix: accept regime labels that are fractional numbers

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 10d17f9..040e978 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -695,7 +695,7 @@ def _get_regimes_set(regimes):
     regimes_set = list(set(regimes))
     if isinstance(regimes_set[0], float):
         regimes_set1 = list(set(map(int, regimes_set)))
-        if len(regimes_set1) == len(regimes_set):
+        if set(regimes_set1) == set(regimes_set):
             regimes_set = regimes_set1
     regimes_set.sort()
     return regimes_set
-- 
2.43.0


From 2011f54d959f6f6b5ab0eca1de195d9f17aeba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 05/60] fix: third and higher lags of the instruments in
 regime-specific spatial lag models

---
 spreg/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 676e050..855f93c 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -732,15 +732,17 @@ def set_endog_sparse(y, x, w, yend, q, w_lags, lag_q):
             lag_vars = sphstack(x, q)
         else:
             lag_vars = x
-        spatial_inst = w @ lag_vars
+        lag = spatial_inst = w @ lag_vars
         for i in range(w_lags - 1):
-            spatial_inst = sphstack(spatial_inst, w @ spatial_inst)
+            lag = w @ lag
+            spatial_inst = sphstack(spatial_inst, lag)
         q = sphstack(q, spatial_inst)
         yend = sphstack(yend, yl)
     elif yend == None:  # spatial instruments only
-        q = w @ x
+        lag = q = w @ x
         for i in range(w_lags - 1):
-            q = sphstack(q, w @ q)
+            lag = w @ lag
+            q = sphstack(q, lag)
         yend = yl
     else:
         raise Exception("invalid value passed to yend")
-- 
2.43.0


From 5e350b070d446473991075e0b2f22b719e1f1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 06/60] fix: power expansion no longer gives up on convergent
 expansions whose terms grow at first

---
 spreg/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 855f93c..8905d20 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -659,6 +659,9 @@ def power_expansion(
     increment = copy.copy(data)
     count = 1
     test = 10000000
+    # increments of a convergent series can grow for some terms, but with
+    # row-standardized weights never beyond this multiple of the data
+    limit = np.sqrt(ws.shape[0]) * la.norm(data)
     if max_iterations == None:
         max_iterations = 10000000
     while test > threshold and count <= max_iterations:
@@ -667,9 +670,8 @@ def power_expansion(
         else:
             increment = ws @ increment * scalar
         running_total += increment
-        test_old = test
         test = la.norm(increment)
-        if test > test_old:
+        if test > limit:
             raise Exception(
                 "power expansion will not converge, check model specification and that weight are less than 1"
             )
-- 
2.43.0


From 944b53469880ef310f7dea22d7dd84a287c61fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 07/60] fix: separate regime estimation when a variable is
 constant within a regime

---
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom_regimes.py | 4 ++--
 spreg/error_sp_regimes.py     | 4 ++--
 spreg/ml_error_regimes.py     | 2 +-
 spreg/ml_lag_regimes.py       | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d149d9e..eff2b86 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -521,7 +521,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1232,7 +1232,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 46262e5..18122f5 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -533,7 +533,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1225,7 +1225,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e5c1a2f..ee8aae9 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -436,7 +436,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi)
+        self.kr = len(cols2regi) - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1045,7 +1045,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi)
+        self.kr = len(cols2regi) - (x.shape[1] + 1 - x_constant.shape[1])
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * (self.kr + 1), 1), float)
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 12af71a..8a1ef5a 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -457,7 +457,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 060da2c..5af0446 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -546,7 +546,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b698967..677e264 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -766,7 +766,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x + name_yend
-- 
2.43.0


From 4aadb7a2eb6ed23af8e906e4bd5db1dcf13adbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 08/60] fix: column selection in GM_Lag_Regimes with spatially
 lagged regressors

---
 spreg/output.py            | 26 ++++++++++++++------------
 spreg/twosls_sp_regimes.py |  2 +-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index 3fcdd0a..08eeb4d 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -290,18 +290,20 @@ def _spat_diag_out(reg, w, type, moran=False, ml=False):
                     x_indices = []
                     for m in reg.output['regime'].unique():
                         x_indices.extend(reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'x')].index)
-                    vm_indices = x_indices + wx_indices.tolist() + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
-                    cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
-                                                        reg.betas[x_indices],
-                                                        reg.betas[wx_indices],
-                                                        reg.vm[vm_indices, :][:, vm_indices])
-                    reg.cfh_test = cft, cft_p
-                    strSummary += "%-27s    %2d   %12.3f        %9.4f\n" % (
-                        "Common Factor Hypothesis Test",
-                        len(wx_indices),
-                        reg.cfh_test[0],
-                        reg.cfh_test[1],
-                    )
+                    # nor if some coefficients are common to all regimes
+                    if len(x_indices) == len(wx_indices):
+                        vm_indices = x_indices + wx_indices.tolist() + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
+                        cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
+                                                            reg.betas[x_indices],
+                                                            reg.betas[wx_indices],
+                                                            reg.vm[vm_indices, :][:, vm_indices])
+                        reg.cfh_test = cft, cft_p
+                        strSummary += "%-27s    %2d   %12.3f        %9.4f\n" % (
+                            "Common Factor Hypothesis Test",
+                            len(wx_indices),
+                            reg.cfh_test[0],
+                            reg.cfh_test[1],
+                        )
 
     elif type == "ols":
         strSummary += "- SARERR -\n"
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 677e264..cde495b 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -526,7 +526,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                     constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)[0:-1]
             else:
                 cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)
+                    constant_regi, cols2regi, x_constant, yend=yend, add_cons=False)
         else:
             name_q.extend(USER.set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=True))
             yend2, q2 = yend, q
-- 
2.43.0


From e3894e31ee00c4d3a2a29b182e503f1cf0af9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:40 +0000
Subject: [PATCH 09/60] fix: update the spatial filter in the iterations of the
 homoskedastic error models with regimes

---
 spreg/error_sp_hom_regimes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 18122f5..7818de6 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -427,8 +427,8 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. SWLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
-                ys = get_spFilter(w, lambda1, y)
+                xs = get_spFilter(w, lambda_old, x_constant1)
+                ys = get_spFilter(w, lambda_old, y)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
@@ -1069,12 +1069,12 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. GS2SLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
+                xs = get_spFilter(w, lambda_old, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
-                ys = get_spFilter(w, lambda1, y)
-                yend_s = get_spFilter(w, lambda1, yend)
+                ys = get_spFilter(w, lambda_old, y)
+                yend_s = get_spFilter(w, lambda_old, yend)
                 yend_s = REGI.Regimes_Frame.__init__(
                     self,
                     yend_s,
-- 
2.43.0


From 07eeea300b08474cdbf1365929f05e4581b804e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 10/60] fix: name of lambda in the heteroskedastic models
 estimated separately by regime

---
 spreg/error_sp_het_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index eff2b86..c4833b7 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1923,7 +1923,7 @@ def _work_endog_error(
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
     model.name_yend = ["%s_%s" % (str(r), i) for i in name_yend]
-    model.name_z = model.name_x + model.name_yend + [str(r)+"lambda"]
+    model.name_z = model.name_x + model.name_yend + [str(r)+"_lambda"]
     model.name_q = ["%s_%s" % (str(r), i) for i in name_q]
     model.name_h = model.name_x + model.name_q
     model.name_w = name_w
-- 
2.43.0


From d1a59d5e2d41119c2e96a51047033134ffa87e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 11/60] fix: stopping rule of the power approximation of the
 spatial multipliers

---
 spreg/sputils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 993ff9a..9ff9787 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -319,7 +319,9 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         adi = 1.0
         adidiff = 100.00
 
-        while adidiff > mtol:
+        # the trace of a power of W may be negative or zero, so the expansion
+        # only ends when both the increment and the power of rho are negligible
+        while abs(adidiff) > mtol or abs(rhop) > mtol:
             pow = pow + 1
             ww = SP.csr_matrix.dot(ww, ws3)
             trw = ww.diagonal().sum()
-- 
2.43.0


From 2facabbf0999869f2170f686f43a0b991bd5e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 12/60] fix: labels of spatially lagged regressors in
 GM_Lag_Regimes

---
 spreg/twosls_sp_regimes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index cde495b..919ca30 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -641,10 +641,10 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             self.regime_lag_sep = regime_lag_sep
             self.title = "SPATIAL " + self.title
             if slx_lags > 0:
-                for m in self.regimes_set:
-                    r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
-                    wx_index = r_output.index[-((len(r_output)-1)//(slx_lags+1)) * slx_lags:]
-                    self.output.loc[wx_index, 'var_type'] = 'wx'
+                for m in list(self.regimes_set) + ["_Global"]:
+                    wx_names = ["%s_%s" % (m, i) for i in name_slx]
+                    is_wx = self.output['var_names'].isin(wx_names) & (self.output['var_type'] == 'x')
+                    self.output.loc[is_wx, 'var_type'] = 'wx'
                 self.title = " SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIMES"
             top_diag = _spat_pseudo_r2(self)
             try:
-- 
2.43.0


From a037f4246c8ea42fbc62e8edf257f906685e57b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 13/60] fix: total effects of spatially lagged regressors in
 models with regimes

---
 spreg/sputils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 9ff9787..9f97b4a 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -364,13 +364,18 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
     # Assumes all SLX effects are indirect effects. 
     if slx_lags > 0:
         if reg.output.regime.nunique() > 1:
-            btot_idx = pd.Series(btot.flatten(), index=variables_x_index)   
-            wchunk_size = len(variables.query("regime == @reg.output.regime.iloc[0]")) #Number of exogenous variables in each regime
-            for i in range(slx_lags):
-                chunk_indices = variables_x_index + (i+1) * wchunk_size
-                bmult = m1 * reg.betas[chunk_indices]
-                btot_idx[variables_x_index] += bmult.flatten()
-                btot = btot_idx.to_numpy().reshape(btot.shape)
+            # lags of a variable are either in the same regime or common to all
+            variables_wx = reg.output.query("var_type == 'wx'")
+            wx_index = dict(zip(variables_wx['var_names'], variables_wx.index))
+            lag_prefix = ["W_"] + ["W%d_" % (i + 2) for i in range(slx_lags - 1)]
+            for j, (vname, vregime) in enumerate(zip(variables['var_names'], variables['regime'])):
+                base = vname[len(str(vregime)) + 1:]
+                for pref in lag_prefix:
+                    for r in (vregime, "_Global"):
+                        i = wx_index.get("%s_%s%s" % (r, pref, base))
+                        if i is not None:
+                            btot[j] += m1 * reg.betas[i]
+                            break
 
         else:
             variables_wx = reg.output.query("var_type == 'wx'")
-- 
2.43.0


From 79b29eb3323d92178c01bf21166b3f506103d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 14/60] fix: sign of the log determinant of dense matrices in
 splogdet

---
 spreg/sputils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 9f97b4a..636a5ab 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -211,8 +211,7 @@ def splogdet(a):
         LU = SPla.splu(a)
         det = np.sum(np.log(np.abs(LU.U.diagonal())))
     else:
-        sgn, ldet = la.slogdet(a)
-        det = sgn * ldet
+        det = la.slogdet(a)[1]
     return det
 
 
-- 
2.43.0


From b636cf769fbf6c71de466eca7049aef47d9b9b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 15/60] fix: use of dict.has_key when building systems from
 long data

---
 spreg/sur_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 3041e41..0457234 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -121,11 +121,11 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for i in range(bign):
             sval = ss[i][0]  # e.g. FIPSNO 27077
             tval = tt[i][0]  # e.g. TIME 1960
-            if tmpy.has_key(tval):
+            if tval in tmpy:
                 tmpy[tval][sval] = y[i]
-            if tmpX.has_key(tval):
+            if tval in tmpX:
                 tmpX[tval][sval] = longxc[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
@@ -226,9 +226,9 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         for i in range(bign):
             sval = ss[i][0]  # e.g. 27077
             tval = tt[i][0]  # e.g. 1960
-            if tmpz.has_key(tval):
+            if tval in tmpz:
                 tmpz[tval][sval] = longz[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
-- 
2.43.0


From 77e547499cdfe5a4a8461cea0eaa97fa34167a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 16/60] fix: score of the LM test of spatial lags in SUR

---
 spreg/diagnostics_sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index cc6a032..eff8b7a 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -225,7 +225,7 @@ def surLMlag(n_eq, WS, bigy, bigX, bigE, bigYP, sig, varb):
     WY = WS @ Y
     EWY = np.dot(bigE.T, WY)
     sigi = la.inv(sig)
-    SEWE = sigi @ EWY
+    SEWE = sigi * EWY
     score = SEWE.sum(axis=0)  # column sums
     score.resize(1, n_eq)  # score as a row vector
 
-- 
2.43.0


From 531fca53e5815ff1a3d818a3fa51a7e305ab8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 17/60] fix: Chow tests of the 3SLS model with regimes

---
 spreg/sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index fbe4352..37fefe2 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -941,7 +941,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     0,
-                    0,
+                    len(name_bigyend[r]),
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
-- 
2.43.0


From 4717a56766f78968c8706e66ef5a0e816b2eae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 18/60] fix: likelihood of the ML SUR error model with regimes
 (sparse regressors)

---
 spreg/ml_error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index e12fe7f..d13b798 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -577,8 +577,8 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
 
     # 2. OLS residuals (using solve instead of inv)
     # Equivalent to: B = (X'X)^-1 X'y
-    xsxs = np.dot(xs.T, xs)
-    xsys = np.dot(xs.T, ys)
+    xsxs = spdot(xs.T, xs)
+    xsys = spdot(xs.T, ys)
     
     try:
         # Solves Ax = B for x. stable and faster than inv
@@ -587,7 +587,7 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
         return np.inf # Return infinity if singular to steer optimizer away
 
     # Calculate residuals
-    xb = np.dot(xs, betas)
+    xb = spdot(xs, betas)
     e = ys - xb
     
     # Calculate sigma^2
-- 
2.43.0


From e8080fdb41d044108027814202bb7d2f88d05d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 19/60] fix: SURlagIV with regimes and endogenous regressors or
 higher order instruments

---
 spreg/sur_lag.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 6eab0ac..0a74d83 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -10,6 +10,7 @@ import numpy as np
 from . import summary_output as SUMMARY
 from . import user_output as USER
 from . import regimes as REGI
+from .sputils import sphstack
 from .sur import BaseThreeSLS
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
 from .sur_utils import check_k, sur_dictxy, sur_dictZ
@@ -299,8 +300,9 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
             cols2regi_dic = {}
+            kryd = {}  # number of endogenous variables varying over regimes
             self.name_bigX, self.name_bigq, self.name_bigyend = {}, {}, {}
-            self.name_x_r = name_bigX
+            self.name_x_r = {r: list(name_bigX[r]) for r in range(self.n_eq)}
 
             # spatial lag dependent variable varying across regimes
             if regime_lag_sep == True:
@@ -309,7 +311,9 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 )
 
             for r in range(self.n_eq):
+                kryd[r] = 0
                 if bigyend is not None:
+                    kryd[r] = bigyend[r].shape[1]
                     self.name_x_r[r] += name_bigyend[r]
                     cols2regi_dic[r] = REGI.check_cols2regi(
                         self.constant_regi,
@@ -360,7 +364,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         # spatial lag dependent variable fixed across regimes or no regimes
         if regimes is None or regime_lag_sep == False:
             bigyend, self.name_bigyend = _get_spatial_lag(
-                self, bigyend, WS, name_bigyend
+                self, bigyend, WS, self.name_bigyend
             )
         # spatially lagged exogenous variables
         bigwx = {}
@@ -374,13 +378,13 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                     bigwq = {}
                     for r in range(self.n_eq):
                         bigwq = WS @ bigq[r]
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], bigwq))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), bigwq)
                         wqnames = ["W_" + i for i in self.name_bigq[r]]
                         wxnames[r] = wxnames[r] + wqnames
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -395,7 +399,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 wxnames[r] = nameswork
                 for i in range(1, w_lags):
                     bigwxwork = WS @ bigwxwork
-                    bigwx[r] = np.hstack((bigwx[r], bigwxwork))
+                    bigwx[r] = sphstack(bigwx[r], bigwxwork)
                     nameswork = ["W" + i for i in nameswork]
                     wxnames[r] = wxnames[r] + nameswork
             if bigq:  # other instruments
@@ -409,15 +413,15 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                         wq[r] = bigwq
                         for i in range(1, w_lags):
                             bigwq = WS @ bigwq
-                            wq[r] = np.hstack((wq[r], bigwq))
+                            wq[r] = sphstack(wq[r], bigwq)
                             wqnameswork = ["W" + i for i in wqnameswork]
                             wqnames[r] = wqnames[r] + wqnameswork
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], wq[r]))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), wq[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r] + wqnames[r]
 
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -461,7 +465,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     fixed_lag,
-                    0,
+                    kryd[r],
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
@@ -484,7 +488,7 @@ def _get_spatial_lag(reg, bigyend, WS, name_bigyend):
         bigylag[r] = WS @ reg.bigy[r]
     if bigyend is not None:
         for r in range(reg.n_eq):
-            bigyend[r] = np.hstack((bigyend[r], bigylag[r]))
+            bigyend[r] = sphstack(bigyend[r], bigylag[r])
         # adjust variable names
         for r in range(reg.n_eq):
             wyname = "W_" + reg.name_bigy[r]
-- 
2.43.0


From 2dcc416505af8927b0685e1a4fdb781f2d80052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 20/60] fix: BSK_tests of other models than PooledOLS and of
 LM2 on its own

BSK_tests called PooledOLS without the weights (TypeError) and computed the
residual matrix only when LM1 or LMJ was asked for (NameError).
---
 spreg/diagnostics_panel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 8222809..a2c5ccc 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -273,16 +273,17 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
 
     if any(test in which for test in ["LMJ", "LM1", "LM2"]):
         if reg.__class__.__name__ != 'PooledOLS':
-            pooled_mod = PooledOLS(reg.y, reg.x)
+            pooled_mod = PooledOLS(reg.y, reg.x, w, spat_diag=False)
         else:
             pooled_mod = reg
 
+        u = pooled_mod.u 
+        u_mat = u.reshape((T, N))
+        u_sq_sum = np.sum(u**2)
+
         if any(test in which for test in ["LMJ", "LM1"]):
             # G term (Random Effects) - Eq 2.11
-            u = pooled_mod.u 
-            u_mat = u.reshape((T, N))
             u_sum_sq = np.sum(np.sum(u_mat, axis=0)**2) 
-            u_sq_sum = np.sum(u**2)
             G = (u_sum_sq / u_sq_sum) - 1
 
             # LM1: Marginal RE (Eq 2.12)
-- 
2.43.0


From 3069fd7bcdfca0a34bd65a21e4854ca5fba4f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 21/60] fix: p-value of the joint BSK test when only one of its
 parts is positive

The reference distribution is the same mixture of chi2 distributions in every
case; the part of chi2(2) was left out when LM1 or LM2 is negative.
---
 spreg/diagnostics_panel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index a2c5ccc..dd1f815 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -332,10 +332,14 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
                 pval_J = 0.5 * prob_ch1 + 0.25 * prob_ch2
             elif LM1 > 0 and LM2 <= 0:
                 LM_J = LM1**2
-                pval_J = 0.5 * (1 - stats.chi2.cdf(LM_J, df=1)) 
+                pval_J = 0.5 * (1 - stats.chi2.cdf(LM_J, df=1)) + 0.25 * (
+                    1 - stats.chi2.cdf(LM_J, df=2)
+                )
             elif LM1 <= 0 and LM2 > 0:
                 LM_J = LM2**2
-                pval_J = 0.5 * (1 - stats.chi2.cdf(LM_J, df=1))
+                pval_J = 0.5 * (1 - stats.chi2.cdf(LM_J, df=1)) + 0.25 * (
+                    1 - stats.chi2.cdf(LM_J, df=2)
+                )
             else:
                 LM_J = 0
                 pval_J = 1.0
-- 
2.43.0


From fe4d023dec50cc0ee975fc42e94aa6f84402bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 22/60] fix: GM_ErrorPooled and ML_ErrorPooled with
 nonspat_diag=False

other_end was only defined when the diagnostics were asked for (UnboundLocalError).
---
 spreg/panel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 57902d3..7c44d36 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -854,6 +854,7 @@ class GM_ErrorPooled(BaseGM_ErrorPooled):
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top = _summary_iteration(self)
 
+        other_end = ""
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
@@ -1067,6 +1068,7 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         self.schwarz = DIAG.schwarz(reg=self)
         self.other_top = _nonspat_top(self, ml=True)     
 
+        other_end = ""
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
-- 
2.43.0


From cf0b6e46258c4945f49babf09760919c465dac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 23/60] fix: likelihood and information criteria of the fixed
 effects panel

logll, aic, schwarz, the ML variance and the sum of squared residuals of PanelFE
were computed from residuals which still contain the fixed effects.
---
 spreg/panel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 7c44d36..84c1cee 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -373,6 +373,7 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
 
         ssr = reg_ols.u.T @ reg_ols.u
         self.sig2 = ssr[0, 0] / self.df_resid
+        self.utu = ssr[0, 0]  # self.u includes the fixed effects
         self.vm = np.dot(self.sig2, reg_ols.xtxi)
         self.std_err = np.sqrt(np.diag(self.vm))
         self.fixed_effects = y_mean.reshape(-1, 1) - (x_mean @ self.betas)
-- 
2.43.0


From d9abaaa704e46ccfddb219d095e5137c404449bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 24/60] fix: constant columns of wide panel data are removed
 after stacking

A variable that is constant over the units in one period (a dummy that is zero
in the first year) lost that period's column before the data were stacked, so
the remaining columns were taken for other variables and periods.
---
 spreg/panel_fe.py    | 8 ++++----
 spreg/panel_utils.py | 7 ++-----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index 703d351..f4e4fb1 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -333,9 +333,9 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, just_rem=True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
@@ -623,9 +623,9 @@ class Panel_FE_Error(BasePanel_FE_Error):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index e4bbb47..4c6b6a4 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -21,13 +21,10 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     """
     warn = []
     n_rows = USER.check_arrays(y, x)
-    x_constant, name_x, warn_add = USER.check_constant(x, name_x, just_rem=True)
+    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x, w, name_y, name_x)
     warn.append(warn_add)
-    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x_constant, w, name_y, name_x)
+    bigx, name_x, warn_add = USER.check_constant(bigx, name_x, just_rem=not add_constant)
     warn.append(warn_add)
-    if add_constant:
-        bigx, name_x, warn_add = USER.check_constant(bigx, name_x)
-        warn.append(warn_add)
     name_x = USER.set_name_x(name_x, bigx, constant=not add_constant)
     name_y = USER.set_name_y(name_y)
 
-- 
2.43.0


From 4479f7bf86ebc834895b4f078ab8a2cb8a8c6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 25/60] fix: PanelFE with integer regressors

The demeaned regressors were stored in an array of the type of the data, which
cut off their decimals.
---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 84c1cee..606c6ca 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -357,7 +357,7 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
         
         dem_y = bigy - np.tile(y_mean, T).reshape(-1, 1)
         
-        dem_x = np.zeros_like(bigx)
+        dem_x = np.zeros(bigx.shape)
         for i in range(self.k):
             col_mean = x_mean[:, i] 
             col_vals = bigx[:, i] 
-- 
2.43.0


From f8147b2a42fa474a5647bcd91be96d8501f4526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 26/60] fix: Probit ignored predflag and never printed the
 prediction table

---
 spreg/probit.py | 1170 +++++++++++++++++++++++------------------------
 1 file changed, 585 insertions(+), 585 deletions(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 7b786d5..85db533 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -1,585 +1,585 @@
-"""Probit regression class and diagnostics."""
-
-__author__ = "Luc Anselin lanselin@gmail.com, Pedro V. Amaral pedrovma@gmail.com"
-
-import numpy as np
-import numpy.linalg as la
-import scipy.optimize as op
-import pandas as pd
-from scipy.stats import norm, chi2
-from libpysal import weights
-chisqprob = chi2.sf
-import scipy.sparse as SP
-from . import user_output as USER
-from . import diagnostics as DIAGNOSTICS  
-from . import diagnostics_probit as PROBDIAG   
-from .output import output, _probit_out
-from .utils import spdot, spbroadcast, set_warn
-
-__all__ = ["Probit"]
-
-class BaseProbit():
-    """
-    Probit class to do the core estimation
-
-    Parameters
-    ----------
-
-    x           : array
-                  nxk array of independent variables (assumed to be aligned with y)
-    y           : array
-                  nx1 array of dependent binary variable
-    optim       : string
-                  Optimization method.
-                  Default: 'newton' (Newton-Raphson).
-                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
-    bstart      : list with starting values for betas
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-
-    Attributes
-    ----------
-    x           : array
-                  Two dimensional array with n rows and one column for each
-                  independent (exogenous) variable, including the constant
-    xmean       : array
-                  kx1 vector with means of explanatory variables
-                  (for use in slopes)
-    y           : array
-                  nx1 array of dependent variable
-    optim       : string
-                  optimization method
-    maxiter     : int
-                  maximum number of iterations
-    q           : array
-                  nx1 array of transformed dependent variable 2*y - 1
-    betas       : array
-                  kx1 array with estimated coefficients
-    bstart      : list with starting values
-    predy       : array
-                  nx1 array of predicted y values (probabilities)
-    n           : int
-                  Number of observations
-    k           : int
-                  Number of variables
-    vm          : array
-                  Variance-covariance matrix (kxk)
-    logl        : float
-                  Log-Likelihhod of the estimation
-    xb          : predicted value of linear index
-                  nx1 array
-    predybin    : predicted value as binary
-                  =1 for predy > 0.5
-    phiy        : normal density at xb (phi function)
-                  nx1 array
-    u_naive     : naive residuals y - predy
-                  nx1 array
-    u_gen       : generalized residuals
-                  nx1 array
-    warning     : boolean
-                  if True Maximum number of iterations exceeded or gradient
-                  and/or function calls not changing.
-
-    Examples - needs updating
-    --------
-    >>> import numpy as np
-    >>> import libpysal
-    >>> import spreg
-    >>> np.set_printoptions(suppress=True) #prevent scientific format
-    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
-    >>> y = np.array([dbf.by_col('CRIME')]).T
-    >>> x = np.array([dbf.by_col('INC'), dbf.by_col('HOVAL')]).T
-    >>> x = np.hstack((np.ones(y.shape),x))
-    >>> model = spreg.probit.BaseProbit((y>40).astype(float), x)
-    >>> print(np.around(model.betas, decimals=6))
-    [[ 3.353811]
-     [-0.199653]
-     [-0.029514]]
-
-    >>> print(np.around(model.vm, decimals=6))
-    [[ 0.852814 -0.043627 -0.008052]
-     [-0.043627  0.004114 -0.000193]
-     [-0.008052 -0.000193  0.00031 ]]
-
-    """
-
-    def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
-        self.y = y
-        self.q = 2* self.y - 1
-        self.x = x
-        self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
-        self.n, self.k = x.shape
-        self.optim = optim
-        self.bstart = bstart
-        self.maxiter = maxiter
-
-        par_est, self.warning = self.par_est()
-        self.betas = par_est[0].reshape(-1,1)
-
-        self.logl = -par_est[1].item()
-        H = self.hessian(self.betas)
-        self.vm = - la.inv(H)
-
-        # predicted values
-        self.xb = self.x @ self.betas
-        self.predy = norm.cdf(self.xb)
-        self.predybin = (self.predy > 0.5) * 1
-        self.phiy = norm.pdf(self.xb)
-        
-        # residuals
-        self.u_naive = self.y - self.predy
-        Phi_prod = self.predy * (1.0 - self.predy)
-        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
-
-
-    def par_est(self):
-
-        if self.bstart:
-            if len(self.bstart) != self.k:
-                raise Exception("Incompatible number of parameters in starting values")
-            else:
-                start = np.array(self.bstart).reshape(-1,1)
-        else:
-            xtx = self.x.T @ self.x
-            xty = self.x.T @ self.y
-            start = la.solve(xtx,xty)
-
-        flogl = lambda par: -self.ll(par)
-
-        if self.optim == "newton":
-            fgrad = lambda par: self.gradient(par)
-            fhess = lambda par: self.hessian(par)
-            par_hat = newton(flogl, start, fgrad, fhess, self.maxiter)
-            warn = par_hat[2]
-        else:
-            fgrad = lambda par: -self.gradient(par)
-            if self.optim == "bfgs":
-                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
-                warn = par_hat[6]
-            if self.optim == "ncg":
-                fhess = lambda par: -self.hessian(par)
-                par_hat = op.fmin_ncg(
-                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
-                )
-                warn = par_hat[5]
-        if warn > 0:
-            warn = True
-        else:
-            warn = False
-        return par_hat, warn
-
-    def ll(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        qxb = q * spdot(self.x, beta)
-        ll = sum(np.log(norm.cdf(qxb)))
-        return ll
-
-    def gradient(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        qxb = q * spdot(self.x, beta)
-        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-        gradient = spdot(lamb.T, self.x)[0]
-        return gradient
-
-    def hessian(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        xb = spdot(self.x, beta)
-        qxb = q * xb
-        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-        hessian = spdot(self.x.T, spbroadcast(self.x, -lamb * (lamb + xb)))
-        return hessian
-
-
-class Probit(BaseProbit):
-
-    """
-    Classic non-spatial Probit and spatial diagnostics. The class includes a
-    printout that formats all the results and tests in a nice format.
-
-    The diagnostics for spatial dependence currently implemented are:
-
-    * Pinkse Error :cite:`Pinkse2004`
-
-    * Kelejian and Prucha Moran's I :cite:`Kelejian2001`
-
-    * Pinkse & Slade Error :cite:`Pinkse1998`
-
-    Parameters
-    ----------
-
-    x           : numpy.ndarray or pandas object
-                  nxk array of independent variables (assumed to be aligned with y)
-    y           : numpy.ndarray or pandas.Series
-                  nx1 array of dependent binary variable
-    w           : W
-                  PySAL weights instance aligned with y
-    slx_lags    : integer
-                  Number of spatial lags of X to include in the model specification.
-                  If slx_lags>0, the specification becomes of the SLX type.
-    slx_vars    : variables to be lagged when slx_lags > 0
-                  default = "All", otherwise a list with Booleans indicating which
-                  variables must be lagged (True) or not (False)
-    optim       : string
-                  Optimization method.
-                  Default: 'newton' (Newton-Raphson).
-                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
-    bstart      : list
-                  list with starting values for betas, default = False
-    scalem      : string
-                  Method to calculate the scale of the marginal effects.
-                  Default: 'phimean' (Mean of individual marginal effects)
-                  Alternative: 'xmean' (Marginal effects at variables mean)
-    predflag    : flag to print prediction table
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-    name_y       : string
-                   Name of dependent variable for use in output
-    name_x       : list of strings
-                   Names of independent variables for use in output
-    name_w       : string
-                   Name of weights matrix for use in output
-    name_ds      : string
-                   Name of dataset for use in output
-
-    Attributes 
-    ----------
-
-    x           : array
-                  Two dimensional array with n rows and one column for each
-                  independent (exogenous) variable, including the constant
-    xmean       : array
-                  kx1 vector with means of explanatory variables
-                  (for use in slopes)
-    y           : array
-                  nx1 array of dependent variable
-    w           : spatial weights object
-    optim       : string
-                  optimization method
-    predflag    : flag to print prediction table (predtable)
-    maxiter     : int
-                  maximum number of iterations
-    q           : array
-                  nx1 array of transformed dependent variable 2*y - 1
-    betas       : array
-                  kx1 array with estimated coefficients
-    bstart      : list with starting values for betas or False
-    predy       : array
-                  nx1 array of predicted y values (probabilities)
-    n           : int
-                  Number of observations
-    k           : int
-                  Number of variables
-    vm          : array
-                  Variance-covariance matrix (kxk)
-    logl        : float
-                  Log-Likelihhod of the estimation
-    xb          : predicted value of linear index
-                  nx1 array
-    predybin    : predicted value as binary
-                  =1 for predy > 0.5
-    phiy        : normal density at xb (phi function)
-                  nx1 array
-    u_naive     : naive residuals y - predy
-                  nx1 array
-    u_gen       : generalized residuals
-                  nx1 array
-    warning     : boolean
-                  if True Maximum number of iterations exceeded or gradient
-                  and/or function calls not changing.
-    std_err     : standard errors of estimates
-    z_stat      : list of tuples
-                  z statistic; each tuple contains the pair (statistic,
-                  p-value), where each is a float
-    predtable   : dictionary
-                  includes margins and cells of actual and predicted
-                  values for discrete choice model
-    fit         : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    predpc      : float
-                  Percent of y correctly predicted (legacy)
-    LRtest      : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0          : likelihood of null model
-    LR          : tuple (legacy)
-                  Likelihood Ratio test of all coefficients = 0
-                  (test statistics, p-value)
-    mcfadrho    : McFadden rho statistics of fit
-    scale       : float
-                  Scale of the marginal effects.
-    slopes      : array
-                  Marginal effects of the independent variables (k-1x1)
-    slopes_vm   : array
-                  Variance-covariance matrix of the slopes (k-1xk-1)
-    slopes_std_err : estimates of standard errors of marginal effects
-    slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    Pinkse_error: array with statistic and p-value
-                  Lagrange Multiplier test against spatial error correlation.
-                  Implemented as presented in :cite:`Pinkse2004`
-    KP_error    : array with statistic and p-value
-                  Moran's I type test against spatial error correlation.
-                  Implemented as presented in :cite:`Kelejian2001`
-    PS_error    : array with statistic and p-value
-                  Lagrange Multiplier test against spatial error correlation.
-                  Implemented as presented in :cite:`Pinkse1998`
-    name_y       : string
-                   Name of dependent variable for use in output
-    name_x       : list of strings
-                   Names of independent variables for use in output
-    name_w       : string
-                   Name of weights matrix for use in output
-    name_ds      : string
-                   Name of dataset for use in output
-    title        : string
-                   Name of the regression method used
-
-    Examples
-    --------
-
-    We first need to import the needed modules, namely numpy to convert the
-    data we read into arrays that ``spreg`` understands and ``libpysal`` to
-    perform all the analysis.
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> np.set_printoptions(suppress=True) #prevent scientific format
-
-    Open data on Columbus neighborhood crime (49 areas) using libpysal.io.open().
-    This is the DBF associated with the Columbus shapefile.  Note that
-    libpysal.io.open() also reads data in CSV format; since the actual class
-    requires data to be passed in as numpy arrays, the user can read their
-    data in using any method.
-
-    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
-
-    Extract the CRIME column (crime) from the DBF file and make it the
-    dependent variable for the regression. Note that libpysal requires this to be
-    an numpy array of shape (n, 1) as opposed to the also common shape of (n, )
-    that other packages accept. Since we want to run a probit model and for this
-    example we use the Columbus data, we also need to transform the continuous
-    CRIME variable into a binary variable. As in :cite:`McMillen1992`, we define
-    y = 1 if CRIME > 40.
-
-    >>> y = np.array([dbf.by_col('CRIME')]).T
-    >>> y = (y>40).astype(float)
-
-    Extract HOVAL (home values) and INC (income) vectors from the DBF to be used as
-    independent variables in the regression.  Note that libpysal requires this to
-    be an nxj numpy array, where j is the number of independent variables (not
-    including a constant). By default this class adds a vector of ones to the
-    independent variables passed in.
-
-    >>> names_to_extract = ['INC', 'HOVAL']
-    >>> x = np.array([dbf.by_col(name) for name in names_to_extract]).T
-
-    Since we want to the test the probit model for spatial dependence, we need to
-    specify the spatial weights matrix that includes the spatial configuration of
-    the observations into the error component of the model. To do that, we can open
-    an already existing gal file or create a new one. In this case, we will use
-    ``columbus.gal``, which contains contiguity relationships between the
-    observations in the Columbus dataset we are using throughout this example.
-    Note that, in order to read the file, not only to open it, we need to
-    append '.read()' at the end of the command.
-
-    >>> w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), 'r').read()
-
-    Unless there is a good reason not to do it, the weights have to be
-    row-standardized so every row of the matrix sums to one. In libpysal, this
-    can be easily performed in the following way:
-
-    >>> w.transform='r'
-
-    We are all set with the preliminaries, we are good to run the model. In this
-    case, we will need the variables and the weights matrix. If we want to
-    have the names of the variables printed in the output summary, we will
-    have to pass them in as well, although this is optional.
-
-    >>> from spreg import Probit
-    >>> model = Probit(y, x, w=w, name_y='crime', name_x=['income','home value'], name_ds='columbus', name_w='columbus.gal')
-
-    Once we have run the model, we can explore a little bit the output. The
-    regression object we have created has many attributes so take your time to
-    discover them.
-
-    >>> np.around(model.betas, decimals=6)
-    array([[ 3.353811],
-           [-0.199653],
-           [-0.029514]])
-
-    >>> np.around(model.vm, decimals=6)
-    array([[ 0.852814, -0.043627, -0.008052],
-           [-0.043627,  0.004114, -0.000193],
-           [-0.008052, -0.000193,  0.00031 ]])
-
-    Since we have provided a spatial weigths matrix, the diagnostics for
-    spatial dependence have also been computed. We can access them and their
-    p-values individually:
-
-    >>> tests = np.array([['Pinkse_error','KP_error','PS_error']])
-    >>> stats = np.array([[model.Pinkse_error[0],model.KP_error[0],model.PS_error[0]]])
-    >>> pvalue = np.array([[model.Pinkse_error[1],model.KP_error[1],model.PS_error[1]]])
-    >>> print(np.hstack((tests.T,np.around(np.hstack((stats.T,pvalue.T)),6))))
-    [['Pinkse_error' '3.131719' '0.076783']
-     ['KP_error' '1.721312' '0.085194']
-     ['PS_error' '2.558166' '0.109726']]
-
-    Or we can easily obtain a full summary of all the results nicely formatted and
-    ready to be printed simply by typing 'print model.summary'
-
-    """
-
-    def __init__(
-        self,
-        y,
-        x,
-        w=None,
-        slx_lags=0,
-        slx_vars = "All",
-        optim="newton",
-        bstart=False,
-        scalem="phimean",
-        predflag = False,
-        maxiter=100,
-        vm=False,
-        name_y=None,
-        name_x=None,
-        name_w=None,
-        name_ds=None,
-        spat_diag=False,
-        latex=False,
-    ):
-
-        n = USER.check_arrays(y, x)
-        y, name_y = USER.check_y(y, n, name_y)
-        x_constant, name_x, warn = USER.check_constant(x, name_x)
-        set_warn(self, warn)
-        self.name_x = USER.set_name_x(name_x, x_constant)
-
-        w_required=False
-        if spat_diag:
-            w_required=True
-        w = USER.check_weights(w, y, w_required=w_required, slx_lags=slx_lags)
-
-        if slx_lags > 0:
-            x_constant,self.name_x = USER.flex_wx(w,x=x_constant,name_x=self.name_x,constant=True,
-                                            slx_lags=slx_lags,slx_vars=slx_vars)            
-
-        BaseProbit.__init__(
-            self, y=y, x=x_constant, optim=optim, bstart=bstart, maxiter=maxiter
-        )
-        self.title = "CLASSIC PROBIT ESTIMATOR"
-        if slx_lags > 0:
-           self.title += " WITH SPATIALLY LAGGED X (SLX)"        
-        self.slx_lags = slx_lags
-        self.name_ds = USER.set_name_ds(name_ds)
-        self.name_y = USER.set_name_y(name_y)
-        self.name_w = USER.set_name_w(name_w, w)
-
-        self.scalem = scalem
-        self.predflag = predflag  # flag to print prediction table
-        self.w = w   # note, not sparse
-
-        # standard errors and z, p-values
-        self.std_err = DIAGNOSTICS.se_betas(self)
-        self.z_stat = DIAGNOSTICS.t_stat(self,z_stat=True)
-
-        # truepos, trueneg, predpc - measures of fit
-        self.predtable = PROBDIAG.pred_table(self)
-        self.fit = PROBDIAG.probit_fit(self)
-        self.predpc = self.fit["PREDPC"]
-        self.LRtest = PROBDIAG.probit_lrtest(self)
-        self.L0 = self.LRtest["L0"]
-        self.LR = (self.LRtest["likr"],self.LRtest["p-value"])
-        self.mcfadrho = PROBDIAG.mcfad_rho(self)
-
-        # impact measures
-        scale,slopes,slopes_vm,slopes_std_err,slopes_z_stat = PROBDIAG.probit_ape(self)
-        self.scale = scale
-        self.slopes = slopes
-        self.slopes_vm = slopes_vm
-        self.slopes_std_err = slopes_std_err
-        self.slopes_z_stat = slopes_z_stat
-
-        # tests for spatial autocorrelation
-        if spat_diag:
-            self.Pinkse_error,self.KP_error,self.PS_error = PROBDIAG.sp_tests(regprob=self)
-
-        #output
-        self.output = pd.DataFrame(self.name_x, columns=['var_names'])
-        self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
-        self.output['regime'], self.output['equation'] = (0, 0)
-        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag)
-        output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
-
-
-def newton(flogl, start, fgrad, fhess, maxiter):
-
-    """
-    Calculates the Newton-Raphson method
-
-    Parameters
-    ----------
-
-    flogl       : lambda
-                  Function to calculate the log-likelihood
-    start       : array
-                  kx1 array of starting values
-    fgrad       : lambda
-                  Function to calculate the gradient
-    fhess       : lambda
-                  Function to calculate the hessian
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-    """
-    warn = 0
-    iteration = 0
-    par_hat0 = start
-    m = 1
-    while iteration < maxiter and m >= 1e-04:
-        H = -la.inv(fhess(par_hat0))
-        g = fgrad(par_hat0).reshape(start.shape)
-        Hg = np.dot(H, g)
-        par_hat0 = par_hat0 + Hg
-        iteration += 1
-        m = np.dot(g.T, Hg)
-    if iteration == maxiter:
-        warn = 1
-    logl = flogl(par_hat0)
-    return (par_hat0, logl, warn)
-
-
-def _test():
-    import doctest
-    start_suppress = np.get_printoptions()["suppress"]
-    np.set_printoptions(suppress=True)
-    doctest.testmod()
-    np.set_printoptions(suppress=start_suppress)
-
-if __name__ == "__main__":
-    _test()
-    import numpy as np
-    import libpysal
-
-    dbf = libpysal.io.open(libpysal.examples.get_path("columbus.dbf"), "r")
-    y = np.array([dbf.by_col("CRIME")]).T
-    var_x = ["INC", "HOVAL"]
-    x = np.array([dbf.by_col(name) for name in var_x]).T
-    w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), "r").read()
-    w.transform = "r"
-    probit1 = Probit(
-        (y > 40).astype(float),
-        x,
-        w=w,
-        name_x=var_x,
-        name_y="CRIME",
-        name_ds="Columbus",
-        name_w="columbus.dbf",
-    )
-    print(probit1.summary)
-
+"""Probit regression class and diagnostics."""
+
+__author__ = "Luc Anselin lanselin@gmail.com, Pedro V. Amaral pedrovma@gmail.com"
+
+import numpy as np
+import numpy.linalg as la
+import scipy.optimize as op
+import pandas as pd
+from scipy.stats import norm, chi2
+from libpysal import weights
+chisqprob = chi2.sf
+import scipy.sparse as SP
+from . import user_output as USER
+from . import diagnostics as DIAGNOSTICS  
+from . import diagnostics_probit as PROBDIAG   
+from .output import output, _probit_out
+from .utils import spdot, spbroadcast, set_warn
+
+__all__ = ["Probit"]
+
+class BaseProbit():
+    """
+    Probit class to do the core estimation
+
+    Parameters
+    ----------
+
+    x           : array
+                  nxk array of independent variables (assumed to be aligned with y)
+    y           : array
+                  nx1 array of dependent binary variable
+    optim       : string
+                  Optimization method.
+                  Default: 'newton' (Newton-Raphson).
+                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
+    bstart      : list with starting values for betas
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+
+    Attributes
+    ----------
+    x           : array
+                  Two dimensional array with n rows and one column for each
+                  independent (exogenous) variable, including the constant
+    xmean       : array
+                  kx1 vector with means of explanatory variables
+                  (for use in slopes)
+    y           : array
+                  nx1 array of dependent variable
+    optim       : string
+                  optimization method
+    maxiter     : int
+                  maximum number of iterations
+    q           : array
+                  nx1 array of transformed dependent variable 2*y - 1
+    betas       : array
+                  kx1 array with estimated coefficients
+    bstart      : list with starting values
+    predy       : array
+                  nx1 array of predicted y values (probabilities)
+    n           : int
+                  Number of observations
+    k           : int
+                  Number of variables
+    vm          : array
+                  Variance-covariance matrix (kxk)
+    logl        : float
+                  Log-Likelihhod of the estimation
+    xb          : predicted value of linear index
+                  nx1 array
+    predybin    : predicted value as binary
+                  =1 for predy > 0.5
+    phiy        : normal density at xb (phi function)
+                  nx1 array
+    u_naive     : naive residuals y - predy
+                  nx1 array
+    u_gen       : generalized residuals
+                  nx1 array
+    warning     : boolean
+                  if True Maximum number of iterations exceeded or gradient
+                  and/or function calls not changing.
+
+    Examples - needs updating
+    --------
+    >>> import numpy as np
+    >>> import libpysal
+    >>> import spreg
+    >>> np.set_printoptions(suppress=True) #prevent scientific format
+    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
+    >>> y = np.array([dbf.by_col('CRIME')]).T
+    >>> x = np.array([dbf.by_col('INC'), dbf.by_col('HOVAL')]).T
+    >>> x = np.hstack((np.ones(y.shape),x))
+    >>> model = spreg.probit.BaseProbit((y>40).astype(float), x)
+    >>> print(np.around(model.betas, decimals=6))
+    [[ 3.353811]
+     [-0.199653]
+     [-0.029514]]
+
+    >>> print(np.around(model.vm, decimals=6))
+    [[ 0.852814 -0.043627 -0.008052]
+     [-0.043627  0.004114 -0.000193]
+     [-0.008052 -0.000193  0.00031 ]]
+
+    """
+
+    def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
+        self.y = y
+        self.q = 2* self.y - 1
+        self.x = x
+        self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
+        self.n, self.k = x.shape
+        self.optim = optim
+        self.bstart = bstart
+        self.maxiter = maxiter
+
+        par_est, self.warning = self.par_est()
+        self.betas = par_est[0].reshape(-1,1)
+
+        self.logl = -par_est[1].item()
+        H = self.hessian(self.betas)
+        self.vm = - la.inv(H)
+
+        # predicted values
+        self.xb = self.x @ self.betas
+        self.predy = norm.cdf(self.xb)
+        self.predybin = (self.predy > 0.5) * 1
+        self.phiy = norm.pdf(self.xb)
+        
+        # residuals
+        self.u_naive = self.y - self.predy
+        Phi_prod = self.predy * (1.0 - self.predy)
+        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
+
+
+    def par_est(self):
+
+        if self.bstart:
+            if len(self.bstart) != self.k:
+                raise Exception("Incompatible number of parameters in starting values")
+            else:
+                start = np.array(self.bstart).reshape(-1,1)
+        else:
+            xtx = self.x.T @ self.x
+            xty = self.x.T @ self.y
+            start = la.solve(xtx,xty)
+
+        flogl = lambda par: -self.ll(par)
+
+        if self.optim == "newton":
+            fgrad = lambda par: self.gradient(par)
+            fhess = lambda par: self.hessian(par)
+            par_hat = newton(flogl, start, fgrad, fhess, self.maxiter)
+            warn = par_hat[2]
+        else:
+            fgrad = lambda par: -self.gradient(par)
+            if self.optim == "bfgs":
+                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
+                warn = par_hat[6]
+            if self.optim == "ncg":
+                fhess = lambda par: -self.hessian(par)
+                par_hat = op.fmin_ncg(
+                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
+                )
+                warn = par_hat[5]
+        if warn > 0:
+            warn = True
+        else:
+            warn = False
+        return par_hat, warn
+
+    def ll(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        qxb = q * spdot(self.x, beta)
+        ll = sum(np.log(norm.cdf(qxb)))
+        return ll
+
+    def gradient(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        qxb = q * spdot(self.x, beta)
+        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
+        gradient = spdot(lamb.T, self.x)[0]
+        return gradient
+
+    def hessian(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        xb = spdot(self.x, beta)
+        qxb = q * xb
+        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
+        hessian = spdot(self.x.T, spbroadcast(self.x, -lamb * (lamb + xb)))
+        return hessian
+
+
+class Probit(BaseProbit):
+
+    """
+    Classic non-spatial Probit and spatial diagnostics. The class includes a
+    printout that formats all the results and tests in a nice format.
+
+    The diagnostics for spatial dependence currently implemented are:
+
+    * Pinkse Error :cite:`Pinkse2004`
+
+    * Kelejian and Prucha Moran's I :cite:`Kelejian2001`
+
+    * Pinkse & Slade Error :cite:`Pinkse1998`
+
+    Parameters
+    ----------
+
+    x           : numpy.ndarray or pandas object
+                  nxk array of independent variables (assumed to be aligned with y)
+    y           : numpy.ndarray or pandas.Series
+                  nx1 array of dependent binary variable
+    w           : W
+                  PySAL weights instance aligned with y
+    slx_lags    : integer
+                  Number of spatial lags of X to include in the model specification.
+                  If slx_lags>0, the specification becomes of the SLX type.
+    slx_vars    : variables to be lagged when slx_lags > 0
+                  default = "All", otherwise a list with Booleans indicating which
+                  variables must be lagged (True) or not (False)
+    optim       : string
+                  Optimization method.
+                  Default: 'newton' (Newton-Raphson).
+                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
+    bstart      : list
+                  list with starting values for betas, default = False
+    scalem      : string
+                  Method to calculate the scale of the marginal effects.
+                  Default: 'phimean' (Mean of individual marginal effects)
+                  Alternative: 'xmean' (Marginal effects at variables mean)
+    predflag    : flag to print prediction table
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+    name_y       : string
+                   Name of dependent variable for use in output
+    name_x       : list of strings
+                   Names of independent variables for use in output
+    name_w       : string
+                   Name of weights matrix for use in output
+    name_ds      : string
+                   Name of dataset for use in output
+
+    Attributes 
+    ----------
+
+    x           : array
+                  Two dimensional array with n rows and one column for each
+                  independent (exogenous) variable, including the constant
+    xmean       : array
+                  kx1 vector with means of explanatory variables
+                  (for use in slopes)
+    y           : array
+                  nx1 array of dependent variable
+    w           : spatial weights object
+    optim       : string
+                  optimization method
+    predflag    : flag to print prediction table (predtable)
+    maxiter     : int
+                  maximum number of iterations
+    q           : array
+                  nx1 array of transformed dependent variable 2*y - 1
+    betas       : array
+                  kx1 array with estimated coefficients
+    bstart      : list with starting values for betas or False
+    predy       : array
+                  nx1 array of predicted y values (probabilities)
+    n           : int
+                  Number of observations
+    k           : int
+                  Number of variables
+    vm          : array
+                  Variance-covariance matrix (kxk)
+    logl        : float
+                  Log-Likelihhod of the estimation
+    xb          : predicted value of linear index
+                  nx1 array
+    predybin    : predicted value as binary
+                  =1 for predy > 0.5
+    phiy        : normal density at xb (phi function)
+                  nx1 array
+    u_naive     : naive residuals y - predy
+                  nx1 array
+    u_gen       : generalized residuals
+                  nx1 array
+    warning     : boolean
+                  if True Maximum number of iterations exceeded or gradient
+                  and/or function calls not changing.
+    std_err     : standard errors of estimates
+    z_stat      : list of tuples
+                  z statistic; each tuple contains the pair (statistic,
+                  p-value), where each is a float
+    predtable   : dictionary
+                  includes margins and cells of actual and predicted
+                  values for discrete choice model
+    fit         : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    predpc      : float
+                  Percent of y correctly predicted (legacy)
+    LRtest      : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0          : likelihood of null model
+    LR          : tuple (legacy)
+                  Likelihood Ratio test of all coefficients = 0
+                  (test statistics, p-value)
+    mcfadrho    : McFadden rho statistics of fit
+    scale       : float
+                  Scale of the marginal effects.
+    slopes      : array
+                  Marginal effects of the independent variables (k-1x1)
+    slopes_vm   : array
+                  Variance-covariance matrix of the slopes (k-1xk-1)
+    slopes_std_err : estimates of standard errors of marginal effects
+    slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    Pinkse_error: array with statistic and p-value
+                  Lagrange Multiplier test against spatial error correlation.
+                  Implemented as presented in :cite:`Pinkse2004`
+    KP_error    : array with statistic and p-value
+                  Moran's I type test against spatial error correlation.
+                  Implemented as presented in :cite:`Kelejian2001`
+    PS_error    : array with statistic and p-value
+                  Lagrange Multiplier test against spatial error correlation.
+                  Implemented as presented in :cite:`Pinkse1998`
+    name_y       : string
+                   Name of dependent variable for use in output
+    name_x       : list of strings
+                   Names of independent variables for use in output
+    name_w       : string
+                   Name of weights matrix for use in output
+    name_ds      : string
+                   Name of dataset for use in output
+    title        : string
+                   Name of the regression method used
+
+    Examples
+    --------
+
+    We first need to import the needed modules, namely numpy to convert the
+    data we read into arrays that ``spreg`` understands and ``libpysal`` to
+    perform all the analysis.
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> np.set_printoptions(suppress=True) #prevent scientific format
+
+    Open data on Columbus neighborhood crime (49 areas) using libpysal.io.open().
+    This is the DBF associated with the Columbus shapefile.  Note that
+    libpysal.io.open() also reads data in CSV format; since the actual class
+    requires data to be passed in as numpy arrays, the user can read their
+    data in using any method.
+
+    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
+
+    Extract the CRIME column (crime) from the DBF file and make it the
+    dependent variable for the regression. Note that libpysal requires this to be
+    an numpy array of shape (n, 1) as opposed to the also common shape of (n, )
+    that other packages accept. Since we want to run a probit model and for this
+    example we use the Columbus data, we also need to transform the continuous
+    CRIME variable into a binary variable. As in :cite:`McMillen1992`, we define
+    y = 1 if CRIME > 40.
+
+    >>> y = np.array([dbf.by_col('CRIME')]).T
+    >>> y = (y>40).astype(float)
+
+    Extract HOVAL (home values) and INC (income) vectors from the DBF to be used as
+    independent variables in the regression.  Note that libpysal requires this to
+    be an nxj numpy array, where j is the number of independent variables (not
+    including a constant). By default this class adds a vector of ones to the
+    independent variables passed in.
+
+    >>> names_to_extract = ['INC', 'HOVAL']
+    >>> x = np.array([dbf.by_col(name) for name in names_to_extract]).T
+
+    Since we want to the test the probit model for spatial dependence, we need to
+    specify the spatial weights matrix that includes the spatial configuration of
+    the observations into the error component of the model. To do that, we can open
+    an already existing gal file or create a new one. In this case, we will use
+    ``columbus.gal``, which contains contiguity relationships between the
+    observations in the Columbus dataset we are using throughout this example.
+    Note that, in order to read the file, not only to open it, we need to
+    append '.read()' at the end of the command.
+
+    >>> w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), 'r').read()
+
+    Unless there is a good reason not to do it, the weights have to be
+    row-standardized so every row of the matrix sums to one. In libpysal, this
+    can be easily performed in the following way:
+
+    >>> w.transform='r'
+
+    We are all set with the preliminaries, we are good to run the model. In this
+    case, we will need the variables and the weights matrix. If we want to
+    have the names of the variables printed in the output summary, we will
+    have to pass them in as well, although this is optional.
+
+    >>> from spreg import Probit
+    >>> model = Probit(y, x, w=w, name_y='crime', name_x=['income','home value'], name_ds='columbus', name_w='columbus.gal')
+
+    Once we have run the model, we can explore a little bit the output. The
+    regression object we have created has many attributes so take your time to
+    discover them.
+
+    >>> np.around(model.betas, decimals=6)
+    array([[ 3.353811],
+           [-0.199653],
+           [-0.029514]])
+
+    >>> np.around(model.vm, decimals=6)
+    array([[ 0.852814, -0.043627, -0.008052],
+           [-0.043627,  0.004114, -0.000193],
+           [-0.008052, -0.000193,  0.00031 ]])
+
+    Since we have provided a spatial weigths matrix, the diagnostics for
+    spatial dependence have also been computed. We can access them and their
+    p-values individually:
+
+    >>> tests = np.array([['Pinkse_error','KP_error','PS_error']])
+    >>> stats = np.array([[model.Pinkse_error[0],model.KP_error[0],model.PS_error[0]]])
+    >>> pvalue = np.array([[model.Pinkse_error[1],model.KP_error[1],model.PS_error[1]]])
+    >>> print(np.hstack((tests.T,np.around(np.hstack((stats.T,pvalue.T)),6))))
+    [['Pinkse_error' '3.131719' '0.076783']
+     ['KP_error' '1.721312' '0.085194']
+     ['PS_error' '2.558166' '0.109726']]
+
+    Or we can easily obtain a full summary of all the results nicely formatted and
+    ready to be printed simply by typing 'print model.summary'
+
+    """
+
+    def __init__(
+        self,
+        y,
+        x,
+        w=None,
+        slx_lags=0,
+        slx_vars = "All",
+        optim="newton",
+        bstart=False,
+        scalem="phimean",
+        predflag = False,
+        maxiter=100,
+        vm=False,
+        name_y=None,
+        name_x=None,
+        name_w=None,
+        name_ds=None,
+        spat_diag=False,
+        latex=False,
+    ):
+
+        n = USER.check_arrays(y, x)
+        y, name_y = USER.check_y(y, n, name_y)
+        x_constant, name_x, warn = USER.check_constant(x, name_x)
+        set_warn(self, warn)
+        self.name_x = USER.set_name_x(name_x, x_constant)
+
+        w_required=False
+        if spat_diag:
+            w_required=True
+        w = USER.check_weights(w, y, w_required=w_required, slx_lags=slx_lags)
+
+        if slx_lags > 0:
+            x_constant,self.name_x = USER.flex_wx(w,x=x_constant,name_x=self.name_x,constant=True,
+                                            slx_lags=slx_lags,slx_vars=slx_vars)            
+
+        BaseProbit.__init__(
+            self, y=y, x=x_constant, optim=optim, bstart=bstart, maxiter=maxiter
+        )
+        self.title = "CLASSIC PROBIT ESTIMATOR"
+        if slx_lags > 0:
+           self.title += " WITH SPATIALLY LAGGED X (SLX)"        
+        self.slx_lags = slx_lags
+        self.name_ds = USER.set_name_ds(name_ds)
+        self.name_y = USER.set_name_y(name_y)
+        self.name_w = USER.set_name_w(name_w, w)
+
+        self.scalem = scalem
+        self.predflag = predflag  # flag to print prediction table
+        self.w = w   # note, not sparse
+
+        # standard errors and z, p-values
+        self.std_err = DIAGNOSTICS.se_betas(self)
+        self.z_stat = DIAGNOSTICS.t_stat(self,z_stat=True)
+
+        # truepos, trueneg, predpc - measures of fit
+        self.predtable = PROBDIAG.pred_table(self)
+        self.fit = PROBDIAG.probit_fit(self)
+        self.predpc = self.fit["PREDPC"]
+        self.LRtest = PROBDIAG.probit_lrtest(self)
+        self.L0 = self.LRtest["L0"]
+        self.LR = (self.LRtest["likr"],self.LRtest["p-value"])
+        self.mcfadrho = PROBDIAG.mcfad_rho(self)
+
+        # impact measures
+        scale,slopes,slopes_vm,slopes_std_err,slopes_z_stat = PROBDIAG.probit_ape(self)
+        self.scale = scale
+        self.slopes = slopes
+        self.slopes_vm = slopes_vm
+        self.slopes_std_err = slopes_std_err
+        self.slopes_z_stat = slopes_z_stat
+
+        # tests for spatial autocorrelation
+        if spat_diag:
+            self.Pinkse_error,self.KP_error,self.PS_error = PROBDIAG.sp_tests(regprob=self)
+
+        #output
+        self.output = pd.DataFrame(self.name_x, columns=['var_names'])
+        self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
+        self.output['regime'], self.output['equation'] = (0, 0)
+        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
+        output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
+
+
+def newton(flogl, start, fgrad, fhess, maxiter):
+
+    """
+    Calculates the Newton-Raphson method
+
+    Parameters
+    ----------
+
+    flogl       : lambda
+                  Function to calculate the log-likelihood
+    start       : array
+                  kx1 array of starting values
+    fgrad       : lambda
+                  Function to calculate the gradient
+    fhess       : lambda
+                  Function to calculate the hessian
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+    """
+    warn = 0
+    iteration = 0
+    par_hat0 = start
+    m = 1
+    while iteration < maxiter and m >= 1e-04:
+        H = -la.inv(fhess(par_hat0))
+        g = fgrad(par_hat0).reshape(start.shape)
+        Hg = np.dot(H, g)
+        par_hat0 = par_hat0 + Hg
+        iteration += 1
+        m = np.dot(g.T, Hg)
+    if iteration == maxiter:
+        warn = 1
+    logl = flogl(par_hat0)
+    return (par_hat0, logl, warn)
+
+
+def _test():
+    import doctest
+    start_suppress = np.get_printoptions()["suppress"]
+    np.set_printoptions(suppress=True)
+    doctest.testmod()
+    np.set_printoptions(suppress=start_suppress)
+
+if __name__ == "__main__":
+    _test()
+    import numpy as np
+    import libpysal
+
+    dbf = libpysal.io.open(libpysal.examples.get_path("columbus.dbf"), "r")
+    y = np.array([dbf.by_col("CRIME")]).T
+    var_x = ["INC", "HOVAL"]
+    x = np.array([dbf.by_col(name) for name in var_x]).T
+    w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), "r").read()
+    w.transform = "r"
+    probit1 = Probit(
+        (y > 40).astype(float),
+        x,
+        w=w,
+        name_x=var_x,
+        name_y="CRIME",
+        name_ds="Columbus",
+        name_w="columbus.dbf",
+    )
+    print(probit1.summary)
+
-- 
2.43.0


From 78c9cdf25164e2ecaadca0208362d6fcaddda195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 27/60] fix: make_wnslx returned too few rows or columns when
 the last observations are nobody's neighbor

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 8905d20..210a442 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -950,7 +950,7 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
         colids = nbrs[pickgd].flatten()
         fdis = fdis[pickgd].flatten()
     
-    spdis = coo_array((fdis,(rowids,colids)))
+    spdis = coo_array((fdis,(rowids,colids)),shape=(n,n))
     spdis = spdis.tocsr(copy=True)
     
     return spdis
-- 
2.43.0


From 29c03edfceb6ef48d64c501c601ca6a5ef3e3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 28/60] fix: NSLX left out the prefix of the name when one of
 several params was selected by slx_vars

---
 spreg/nslx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index b2aa5d7..b34b858 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -343,6 +343,7 @@ class NSLX(BaseNSLX):
                 if g == len(slx_vars):  # params does not have correct form
                     params = list(compress(params,slx_vars))
                     transform = list(compress(transform,slx_vars))
+                    g = len(params)
                 elif g != len(xw_name):
                     raise Exception("Mismatch dimension params and slx_vars")
 
-- 
2.43.0


From f09b53bfb19fcde698d983e5e2db4b9fddefe99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 29/60] fix: stge_pre reported LAG instead of SDM when the AK
 step of the SLX branch failed

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index be59729..9f021e3 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -697,7 +697,7 @@ def stge_pre(
                 except:  # ignore lag model
                     if p_rlag <= p_rerror:
                         k = idv + 1
-                        result = models[1]
+                        result = models[k]
 
                     else:
                         k = idv + 2
-- 
2.43.0


From 781609e5d2ca639c676bf811b94bea619ccbd7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 30/60] fix: the variance of NSLX with a power transformation
 was nan, from 0 times the log of 0 for the neighbor at the bandwidth

---
 spreg/nslx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index b34b858..3207a22 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -542,7 +542,7 @@ def _nltransform(a,w,transform,gradflag=0):
         elif gradflag == 1:
             walpha = walpha.power(a)
             ww = w.copy()
-            np.log(ww.data, out = ww.data)
+            np.log(ww.data, out = ww.data, where = ww.data > 0)  # zero weights have zero gradient
             wgrad = walpha.multiply(ww)
             walpha = wgrad
             
-- 
2.43.0


From cb097a4870b71ba70be4b542e9a751ac2372cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:13 +0000
Subject: [PATCH 31/60] fix: Skater_reg lost the regions when the quorum
 allowed no further cut

---
 spreg/skater_reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c563597..0fda2a9 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -290,7 +290,7 @@ class Skater_reg(object):
                 trees_scores,
                 new_MSF,
                 current_n_subtrees,
-                current_labels,
+                new_labels,
             ) = self.find_cut(
                 MSF,
                 data,
@@ -317,6 +317,7 @@ class Skater_reg(object):
                     )
                 prev_score = best_deletion.score
                 MSF = new_MSF
+                current_labels = new_labels
             else:  # otherwise, it means the MSF admits no further cuts
                 prev_n_subtrees, _ = cg.connected_components(MSF, directed=False)
                 warn(
-- 
2.43.0


From 0b6988c28af12fd3f581fac18dd2cc567b43bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:13 +0000
Subject: [PATCH 32/60] fix: Skater_reg's score methods could not score a given
 or fitted set of labels

---
 spreg/skater_reg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 0fda2a9..607ee9c 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -368,6 +368,8 @@ class Skater_reg(object):
         """
 
         labels, subtree_quorums = self._prep_score(all_labels, current_tree, current_labels)
+        if all_labels is None:
+            all_labels = labels
         if (subtree_quorums < quorum).any():
             return np.inf, None
 
@@ -468,6 +470,8 @@ class Skater_reg(object):
         labels, subtree_quorums = self._prep_score(
             all_labels, current_tree, current_labels
         )
+        if all_labels is None:
+            all_labels = labels
         if (subtree_quorums < quorum).any():
             return np.inf, None
         set_labels = set(labels)
@@ -511,6 +515,8 @@ class Skater_reg(object):
                 raise ValueError(
                     "Labels not provided and MSF_Prune object has not been fit to data yet."
                 )
+        else:
+            labels = all_labels
         if current_tree is not None:
             labels = all_labels[current_labels == current_tree]
         _, subtree_quorums = np.unique(labels, return_counts=True)
-- 
2.43.0


From 95b4e0eb5353fb0baf3aeeaa345914f5c000fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 33/60] fix: Skater_reg compared and added up the scores of
 separate components wrongly

---
 spreg/skater_reg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 607ee9c..7498436 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -622,6 +622,11 @@ class Skater_reg(object):
         except:
             pass
 
+        if trees_scores is None and current_n_subtrees > 1:
+            # cuts of different components compete by how much they reduce the score
+            score = self.score_stats if model_family == "statsmodels" else self.score_spreg
+            _, trees_scores = score(data, data_reg, current_labels)
+
         try:
             old_score = sum(trees_scores.values())
         except:
-- 
2.43.0


From ecb2d9a3942261e56e87cf9febc5239a90650e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 34/60] fix: Skater_reg took neighbors with the same attributes
 as not connected

---
 spreg/skater_reg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 7498436..d33d495 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -228,8 +228,9 @@ class Skater_reg(object):
 
         super_verbose = verbose > 1
         start_W = time.time()
-        dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        dissim = W.multiply(attribute_kernel).tocsr()
+        # a zero would remove the edge between two identical neighbors
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
 
         if super_verbose:
-- 
2.43.0


From 4b72c3aef2ed7eb8f5344042774c2f900d4a7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 35/60] fix: Skater_reg with an affinity could not score the
 data

---
 spreg/skater_reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index d33d495..4b9df56 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -157,7 +157,7 @@ class Skater_reg(object):
         if affinity is not None:
             # invert the 0,1 affinity to
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, **kwargs: -np.log(affinity(X, **kwargs))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From e68d0ed04e78f239b557a63dec2ef5a65c5862d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 36/60] fix: Skater_reg failed when a regressor was constant
 within a region

---
 spreg/skater_reg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 4b9df56..b78e8eb 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -417,16 +417,16 @@ class Skater_reg(object):
                             temp_vars[key] = mat[:, ~small_diag_indices]
 
                     x = temp_vars["x"]
-                    try:
-                        x = np.hstack((np.ones((x.shape[0], 1)), x))
-                    except np.linalg.LinAlgError:
-                        x = _const_x(x)
+                    x = np.hstack((np.ones((x.shape[0], 1)), x))
 
                     if temp_vars["yend"] is not None:
                         kargs["yend"] = temp_vars["yend"]
                         kargs["q"] = temp_vars["q"]
 
-                    reg = data_reg["reg"](y=y, x=x, **kargs)
+                    try:
+                        reg = data_reg["reg"](y=y, x=x, **kargs)
+                    except np.linalg.LinAlgError:
+                        reg = data_reg["reg"](y=y, x=_const_x(x), **kargs)
                     trees_scores[l] = np.dot(reg.u.T, reg.u)[0][0]
 
                 score = sum(trees_scores.values())
-- 
2.43.0


From 23321ad62d1ee5e169608df5714ed42db05ab7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 37/60] fix: Skater_reg left the first regressor out of the
 instruments of the spatial lag and changed data_reg

---
 spreg/skater_reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index b78e8eb..fdae8a7 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -545,7 +545,8 @@ class Skater_reg(object):
 
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
-        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
+        data_reg = dict(data_reg)
+        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"], data_reg["w"], yend=None,
             q=None, w_lags=1, lag_q=True)
         return data_reg
 
-- 
2.43.0


From e8d3f10cf12006a58401cb67d07a673286b38b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 38/60] fix: Skater_reg changed the transformation of the
 weights it was given

---
 spreg/skater_reg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index fdae8a7..d04c781 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,8 +222,11 @@ class Skater_reg(object):
         if data.shape[0] <= n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
+        W_transform = W.transform
         W.transform = "b"
-        W = W.sparse
+        W_sparse = W.sparse
+        W.transform = W_transform
+        W = W_sparse
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From 6f6bca14ea3f3961ff5f0876c7e5f195c9fd5a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 39/60] fix: summaries of models other than OLS printed the
 name of their class

---
 spreg/output.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 08eeb4d..097037e 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -92,7 +92,6 @@ def out_part_top(strSummary, reg, m):
     else:
         _reg.z_stat = diagnostics.t_stat(_reg, z_stat=True)
         if _reg.__class__.__name__ not in ('NSLX','PSM','LagPSM') and not _reg.__class__.__name__.endswith('Probit'):
-            print(_reg.__class__.__name__)
             _reg.pr2 = diagnostics_tsls.pr2_aspatial(_reg)
             strSummary += "%-20s:%12.4f\n" % ("Pseudo R-squared", _reg.pr2)
         _reg.__summary["summary_zt"] = "z"
-- 
2.43.0


From 4c1653d786675a5c17d9208fce5118b1b5c0cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 40/60] fix: regimes models with endogenous variables did not
 check the shape of yend and q

---
 spreg/error_sp_het_regimes.py | 2 +-
 spreg/error_sp_hom_regimes.py | 2 +-
 spreg/error_sp_regimes.py     | 2 +-
 spreg/twosls_regimes.py       | 4 ++--
 spreg/twosls_sp_regimes.py    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index c4833b7..07eb3a9 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1720,7 +1720,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         self.step1c = step1c
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 7818de6..aa30411 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1720,7 +1720,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index ee8aae9..1d556a6 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1501,7 +1501,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9f408bc..50e1c89 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -342,7 +342,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         latex=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
@@ -1063,7 +1063,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
         self, y, x, yend, q, w=None, n_clusters=None, quorum=-1, trace=True, name_y=None, name_x=None, name_yend=None, name_q=None, 
         constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True)
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 919ca30..62b7c1d 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -482,7 +482,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         hard_bound=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
-- 
2.43.0


From 30e46ca8a8bc44bb22544c25ce993d8dee802c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 41/60] fix: SURlagIV replaced the given names of endogenous
 variables and instruments

---
 spreg/sur_lag.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 0a74d83..5756ece 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -277,17 +277,13 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 name_bigX[r] = name_x
         if name_bigyend is None:
             name_bigyend = {}
-        if bigyend is not None:  # check on other endogenous
-            self.bigyend = bigyend
-            for r in range(self.n_eq):
+            for r in range(self.n_eq if bigyend is not None else 0):
                 ky = bigyend[r].shape[1]
                 name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
                 name_bigyend[r] = name_ye
         if name_bigq is None:
             name_bigq = {}
-        if bigq is not None:  # check on instruments
-            self.bigq = bigq
-            for r in range(self.n_eq):
+            for r in range(self.n_eq if bigq is not None else 0):
                 ki = bigq[r].shape[1]
                 name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
                 name_bigq[r] = name_i
-- 
2.43.0


From 3963aac4c673bdcb9e6b83812043e3ccebc360e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 42/60] fix: SUR and three stage estimators changed the
 dictionaries they were given

---
 spreg/sur.py       |  3 +++
 spreg/sur_error.py |  2 ++
 spreg/sur_lag.py   | 10 +++++++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index 37fefe2..35d3480 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -459,6 +459,7 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             self.name_x_r = name_bigX
             cols2regi_dic = {}
             self.name_bigX = {}
+            bigX = dict(bigX)  # not to replace the variables of the user
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
                     self.constant_regi, self.cols2regi, bigX[r], add_cons=False
@@ -869,6 +870,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             self.name_regimes = USER.set_name_ds(name_regimes)
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
+            # not to replace the variables of the user
+            bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
             cols2regi_dic = {}
             self.name_bigX, self.name_x_r, self.name_bigq, self.name_bigyend = (
                 {},
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 9a1585c..91f7176 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -358,6 +358,7 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
             cols2regi_dic = {}
             self.name_bigX = {}
             self.name_x_r = name_bigX
+            bigX = dict(bigX)  # not to replace the variables of the user
 
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
@@ -805,6 +806,7 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
             self.name_x_r = name_bigX
             cols2regi_dic = {}
             self.name_bigX = {}
+            bigX = dict(bigX)  # not to replace the variables of the user
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
                     self.constant_regi, self.cols2regi, bigX[r], add_cons=False
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 5756ece..d46d7e6 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -247,7 +247,15 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
-        
+        # the variables and names of the user are left as they are
+        bigX = dict(bigX)
+        bigyend = dict(bigyend) if bigyend is not None else None
+        bigq = dict(bigq) if bigq is not None else None
+        if name_bigyend is not None:
+            name_bigyend = {r: list(name_bigyend[r]) for r in name_bigyend}
+        if name_bigq is not None:
+            name_bigq = dict(name_bigq)
+
         if w is None:
             raise Exception("Spatial weights required for SUR-Lag")
         self.w = w
-- 
2.43.0


From 22f2de8bbf732c1b4b2b1f4e06bc660ab2d31907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 43/60] fix: SUR and three stage estimators accepted missing
 values and invalid weights

---
 spreg/sur.py       | 6 ++++++
 spreg/sur_error.py | 6 ++++++
 spreg/sur_lag.py   | 8 ++++++++
 3 files changed, 20 insertions(+)

diff --git a/spreg/sur.py b/spreg/sur.py
index 35d3480..5687496 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -430,6 +430,10 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
+        for r in bigy:
+            USER.check_arrays(bigy[r], bigX[r])
+        if w is not None:
+            w = USER.check_weights(w, bigy[0], w_required=True)
 
         # initialize names - should be generated by sur_stack
         if name_bigy:
@@ -830,6 +834,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
 
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
+        for r in bigy:
+            USER.check_arrays(bigy[r], bigX[r], bigyend[r], bigq[r])
 
         # initialize names - should be generated by sur_stack
         if name_bigy:
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 91f7176..1659279 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -332,6 +332,9 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
         self.name_w = USER.set_name_w(name_w, w)
         # initialize names - should be generated by sur_stack
         self.n_eq = len(bigy.keys())
+        for r in bigy:
+            USER.check_arrays(bigy[r], bigX[r])
+        w = USER.check_weights(w, bigy[0], w_required=True)
         if name_bigy:
             self.name_bigy = name_bigy
         else:  # need to construct y names
@@ -779,6 +782,9 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
+        for r in bigy:
+            USER.check_arrays(bigy[r], bigX[r])
+        w = USER.check_weights(w, bigy[0], w_required=True)
         # initialize names - should be generated by sur_stack
         if name_bigy:
             self.name_bigy = name_bigy
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index d46d7e6..2d25aa6 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -258,6 +258,14 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
         if w is None:
             raise Exception("Spatial weights required for SUR-Lag")
+        for r in bigy:
+            USER.check_arrays(
+                bigy[r],
+                bigX[r],
+                bigyend[r] if bigyend else None,
+                bigq[r] if bigq else None,
+            )
+        w = USER.check_weights(w, bigy[0], w_required=True)
         self.w = w
         WS = w.sparse
         self.name_ds = USER.set_name_ds(name_ds)
-- 
2.43.0


From 1ffa315d9d841feeef3fa4d75c0d2920fcb4d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 44/60] fix: one dimensional endogenous variables and
 instruments were reshaped in place

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 83ef655..60e8cca 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -542,7 +542,7 @@ def check_endog(arrays, names):
         if arrays[i] is None:
             pass
         elif len(arrays[i].shape) == 1:
-            arrays[i].shape = (arrays[i].shape[0], 1)
+            arrays[i] = arrays[i].reshape(-1, 1)
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From b71962ca73f9a09b1b5b8648b304ebf3be13b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:18 +0000
Subject: [PATCH 45/60] fix: the eigenvalue method used those of the row
 standardized binary weights whatever the weights, and changed their
 transformation

---
 spreg/ml_error.py |  4 ++--
 spreg/ml_lag.py   |  4 ++--
 spreg/panel_re.py |  4 ++--
 spreg/w_utils.py  | 29 +++++++++++++++++------------
 4 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index d13b798..183d03d 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -203,8 +203,8 @@ class BaseML_Error(RegressionPropsY, RegressionPropsVM, REGI.Regimes_Frame):
                 W = Wsp
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
-                    ww = symmetrize(w)
+                ww = symmetrize(w)
+                if ww is not None:
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
                     W = WW
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 41cbba2..106b7cc 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -235,8 +235,8 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                 )
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
-                    ww = symmetrize(w)
+                ww = symmetrize(w)
+                if ww is not None:
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
                     W = WW
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index a55e9b9..fa4b3e3 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -486,8 +486,8 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
 
         # concentrated Log Likelihood
         I = np.identity(self.n)
-        if w.asymmetry(intrinsic=False) == []:
-            ww = symmetrize(w)
+        ww = symmetrize(w)
+        if ww is not None:
             WW = np.array(ww.todense())
             evals, evecs = la.eigh(WW)
             W = WW
diff --git a/spreg/w_utils.py b/spreg/w_utils.py
index 657a498..89e285f 100644
--- a/spreg/w_utils.py
+++ b/spreg/w_utils.py
@@ -1,26 +1,31 @@
 import numpy as np
 import scipy.sparse as SPARSE
+from libpysal.weights import W
 
 
 def symmetrize(w):
-    """Generate symmetric matrix that has same eigenvalues as an asymmetric row
-    standardized matrix w
+    """Generate symmetric matrix that has same eigenvalues as w
 
     Parameters
     ----------
-    w: weights object that has been row standardized
+    w: weights object that is symmetric or the row standardized version of
+       symmetric weights; it is not changed
 
     Returns
     -------
-    a sparse symmetric matrix with same eigenvalues as w
+    a sparse symmetric matrix with same eigenvalues as w, None when w is
+    neither symmetric nor row standardized from symmetric weights
 
     """
-    current = w.transform
-    w.transform = "B"
-    d = w.sparse.sum(axis=1)  # row sum
-    d.shape = (w.n,)
-    d = np.sqrt(d)
+    if w.transform == "R":
+        wo = W(w.neighbors, w.transformations["O"], id_order=w.id_order, silence_warnings=True)
+    else:
+        wo = w
+    if wo.asymmetry(intrinsic=True) != []:
+        return None
+    if wo is w:
+        return w.sparse
+    d = np.array(wo.sparse.sum(axis=1)).flatten()  # row sum
+    d = np.sqrt(np.where(d == 0, 1.0, d))
     Di12 = SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n))
-    D12 = SPARSE.dia_matrix((d, [0]), shape=(w.n, w.n))
-    w.transform = "r"
-    return D12 @ w.sparse @ Di12
+    return Di12 @ wo.sparse @ Di12
-- 
2.43.0


From d4f9f6cf063a66c119d117b492a6e2469dbc4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 46/60] fix: summaries of regimes models lost the Chow test
 block, whose sum of squared residuals is a one by one array

---
 spreg/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 097037e..f508191 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -226,7 +226,7 @@ def _summary_chow(reg):
     try:
         tot_SSR = reg.score
     except:
-        tot_SSR = np.dot(reg.u.T, reg.u)
+        tot_SSR = np.sum(reg.u ** 2)
     try:
         n_clust = reg.nr
     except:
-- 
2.43.0


From f47c26fda0c888b77ab2683808e622c6bc89ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 47/60] fix: panel models refused series as dependent or
 explanatory variable

---
 spreg/panel_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 4c6b6a4..7221cd1 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -62,15 +62,15 @@ def check_panel(y, x, w, name_y, name_x):
                 name_y = y.columns.to_list()
             except AttributeError:
                 name_y = y.name
-        y = y.to_numpy()
+        y = y.to_numpy().reshape(len(y), -1)
         
     if isinstance(x, (pd.Series, pd.DataFrame)):
         if name_x is None:
             try:
                 name_x = x.columns.to_list()
             except AttributeError:
-                name_x = x.name
-        x = x.to_numpy()
+                name_x = [x.name]
+        x = x.to_numpy().reshape(len(x), -1)
 
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
-- 
2.43.0


From a36e5d4cd8f20828265dc6a604fc384bb1fb1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 48/60] fix: ML_ErrorPooled replaced the name of the dependent
 variable taken from a frame

---
 spreg/panel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 606c6ca..ebc1e23 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1055,7 +1055,6 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         BaseML_ErrorPooled.__init__(self, bigy, bigx, w, method=method, epsilon=epsilon)
         
         self.name_ds = USER.set_name_ds(name_ds)
-        self.name_y = USER.set_name_y(name_y)
         self.slx_lags = slx_lags
         self.name_w = USER.set_name_w(name_w, w)
         
-- 
2.43.0


From b49790e22b924a63d8596acdefeed3b5ac8b9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 49/60] fix: ML_Error_Regimes failed with a series as x and
 left out spatial lags when checking the size of regimes

---
 spreg/ml_error_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 8a1ef5a..76e0386 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -331,7 +331,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         self.cols2regi = cols2regi        
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
-        USER.check_regimes(self.regimes_set, self.n, x.shape[1])
+        USER.check_regimes(self.regimes_set, self.n, x_constant.shape[1])
         self.regime_err_sep = regime_err_sep
 
         if regime_err_sep == True:
-- 
2.43.0


From 9f22f14b396be91617bbf125380d20644610938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 50/60] fix: optim_k returned one regime when only one split
 was possible

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 210a442..6c8d8fe 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -870,7 +870,7 @@ def optim_k(trace, window_size=None):
         l = (window_size-1)*b/2
         treshold.append(trace[i+window_size] < ma[i] - b - l - 2.75*std_dev[i])
         i += 1
-    return i+window_size
+    return max(i+window_size, 2) # one possible split only: two regimes
 
 
 def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
-- 
2.43.0


From 1c7a1b12f0f0bd3ae94057e4879a844b8ad42d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:08 +0000
Subject: [PATCH 51/60] fix: slx_vars (and hard_bound in GMM_Error) were
 dropped when a regimes vector was given or arguments did not combine

---
 spreg/error_sp.py    | 7 ++++++-
 spreg/ml_error.py    | 1 +
 spreg/ml_lag.py      | 1 +
 spreg/ols.py         | 1 +
 spreg/twosls.py      | 1 +
 spreg/twosls_sp.py   | 1 +
 spreg/user_output.py | 2 +-
 7 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 18cc550..597a10f 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1324,6 +1324,11 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
         if regimes is not None:
             from .error_sp_regimes import GMM_Error_Regimes
             self.__class__ = GMM_Error_Regimes
+            # options that only some of the classes with regimes have
+            if not isinstance(slx_vars, str):
+                kwargs["slx_vars"] = slx_vars
+            if hard_bound:
+                kwargs["hard_bound"] = hard_bound
             self.__init__(
                 y=y, x=x, regimes=regimes, w=w, yend=yend, q=q, estimator=estimator, add_wy=add_wy, 
                 slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, name_w=name_w, name_yend=name_yend,
@@ -1373,7 +1378,7 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error not allowed. Using default arguments instead.')
-                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, 
+                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x, 
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
 
 
diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index 183d03d..6c89b7f 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -499,6 +499,7 @@ class ML_Error(BaseML_Error):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 vm=vm,
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 106b7cc..943f481 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -626,6 +626,7 @@ class ML_Lag(BaseML_Lag):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 spat_impacts=spat_impacts,
diff --git a/spreg/ols.py b/spreg/ols.py
index 9b1da1d..a4b411f 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -474,6 +474,7 @@ class OLS(BaseOLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 nonspat_diag=nonspat_diag,
                 spat_diag=spat_diag,
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0c59bb6..5b07aba 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -492,6 +492,7 @@ class TSLS(BaseTSLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 spat_diag=spat_diag,
                 vm=vm,
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 8efc6e6..26eb06a 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -548,6 +548,7 @@ class GM_Lag(BaseGM_Lag):
                 w=w,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 robust=robust,
                 gwk=gwk,
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 60e8cca..98baa47 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -178,7 +178,7 @@ def set_name_spatial_lags(names, w_lags, slx_vars="all", additional=0):
     lag_names2 : string, only returned if additional > 0
 
     """
-    if slx_vars != "all":
+    if not isinstance(slx_vars, str):
         names = list(compress(names,slx_vars))
     lag_names = ["W_" + s for s in names]
     n_i = 1
-- 
2.43.0


From 3d0950727cc9a876207a374550a871ee1733705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:08 +0000
Subject: [PATCH 52/60] fix: names of the spatial instruments with a selection
 of lagged variables

---
 spreg/error_sp.py          | 6 ++----
 spreg/error_sp_het.py      | 6 ++----
 spreg/error_sp_hom.py      | 8 ++------
 spreg/twosls_sp.py         | 6 ++----
 spreg/twosls_sp_regimes.py | 3 +--
 5 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 597a10f..9de695d 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1042,10 +1042,8 @@ class GM_Combo(BaseGM_Endog_Error):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
+                # last lag of every x variable, the instruments are its further lags
+                self.name_x0.extend(USER.set_name_spatial_lags(workname, slx_lags)[-kx:])
 
 
             else:
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a03d423..fdde5b5 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1497,10 +1497,8 @@ class GM_Combo_Het(BaseGM_Combo_Het):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
+                # last lag of every x variable, the instruments are its further lags
+                self.name_x0.extend(USER.set_name_spatial_lags(workname, slx_lags)[-kx:])
 
 
             else:
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e7210ff..eb0d341 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1449,12 +1449,8 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if isinstance(slx_vars, list):  # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(
-                    list(compress(self.name_x[1:], [not i for i in slx_vars]))
-                )
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
+                # last lag of every x variable, the instruments are its further lags
+                self.name_x0.extend(USER.set_name_spatial_lags(workname, slx_lags)[-kx:])
 
             else:
                 okx = int(
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 26eb06a..0ab11b2 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -633,10 +633,8 @@ class GM_Lag(BaseGM_Lag):
                 self.name_x0 = []
                 self.name_x0.append(self.name_x[0])  # constant
                 if (isinstance(slx_vars,list)):   # boolean list passed
-                    # x variables that were not lagged
-                    self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                    # last wkx variables
-                    self.name_x0.extend(self.name_x[-wkx:])
+                    # last lag of every x variable, the instruments are its further lags
+                    self.name_x0.extend(USER.set_name_spatial_lags(workname, slx_lags)[-kx:])
 
 
                 else:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 62b7c1d..d093b97 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -517,8 +517,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags, slx_vars=slx_vars)
-            iter_slx = iter(name_slx) 
-            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, slx_vars)]
+            name_q_temp = USER.set_name_spatial_lags(name_x, slx_lags)[-len(name_x):]
             name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
             if cols2regi == 'all':
-- 
2.43.0


From fde346744fe1cb5cbb8ccba18046fc6139cd7324 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:01:54 +0000
Subject: [PATCH 53/60] fix: separate regimes with spatial diagnostics lost the
 variance matrix

---
 spreg/ols_regimes.py    | 2 +-
 spreg/twosls_regimes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4ebfd1b..6678853 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -682,7 +682,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
 
     def _get_spat_diag_props(self, x, sig2n_k):
         self.k = self.kr
-        self._cache = {}
+        self._cache = {"vm": self.vm}
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 50e1c89..306293e 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -629,7 +629,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-        self._cache = {}
+        self._cache = {"vm": self.vm}
         x = REGI.regimeX_setup(x, self.regimes, [True] * x.shape[1], self.regimes_set)
         self.z = sphstack(
             x,
-- 
2.43.0


From 9434191e101bbe4ef34dab83f233741ca4d41cac Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:02:06 +0000
Subject: [PATCH 54/60] fix: Chow tests of ML_Error_Regimes carried the names
 of other coefficients when some did not vary

---
 spreg/ml_error_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 76e0386..c04dc43 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -328,7 +328,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         self.name_x_r = USER.set_name_x(name_x, x_constant)
 
         cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant)
-        self.cols2regi = cols2regi        
+        self.cols2regi = cols2regi[1:]
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
         USER.check_regimes(self.regimes_set, self.n, x_constant.shape[1])
-- 
2.43.0


From 75f8f9e3b6c85ade21cf5091f92741f45b50708b Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:03:11 +0000
Subject: [PATCH 55/60] fix: separate lag regimes refused slx_vars given as a
 list

---
 spreg/ml_lag_regimes.py    | 11 +++++++++--
 spreg/twosls_sp_regimes.py | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 5af0446..cf0ad35 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -401,6 +401,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 w,
                 regi_ids,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 cores=cores,
                 cols2regi=cols2regi,
                 method=method,
@@ -478,6 +479,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
         w,
         regi_ids,
         slx_lags,
+        slx_vars,
         cores,
         cols2regi,
         method,
@@ -607,7 +609,12 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             results[r].other_mid = ""
             if slx_lags > 0:
                 kx = (len(results[r].name_x) - 1) // (slx_lags + 1)
-                var_types = ['o']+['x']*kx + ['wx'] * kx * slx_lags + ['rho']
+                kwx = kx * slx_lags
+                if isinstance(slx_vars, list):
+                    kwx = sum(slx_vars) * slx_lags
+                    kx = len(results[r].name_x) - 2 - kwx
+                results[r].slx_vars = slx_vars
+                var_types = ['o']+['x']*kx + ['wx'] * kwx + ['rho']
             else:
                 var_types = ['o']+['x'] * (len(results[r].name_x) - 2) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x,
@@ -617,7 +624,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             if spat_diag and slx_lags == 1:
                 results[r].other_mid += _spat_diag_out(results[r], None, 'yend', ml=True)
             if spat_impacts:
-                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags)
+                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags, slx_vars)
                 results[r].other_mid += impacts_str
             counter += 1
         self.multi = results
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index d093b97..2474cf4 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -576,6 +576,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 q=q2,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 cores=cores,
                 robust=robust,
@@ -674,6 +675,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         q=None,
         w_lags=1,
         slx_lags=0,
+        slx_vars="all",
         lag_q=True,
         robust=None,
         gwk=None,
@@ -853,7 +855,12 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             results[r].other_mid = ""
             if slx_lags > 0:
                 kx = (results[r].k - results[r].kstar - 1) // (slx_lags + 1)
-                var_types = ['o'] + ['x']*kx + ['wx'] * kx * slx_lags + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
+                kwx = kx * slx_lags
+                if isinstance(slx_vars, list):
+                    kwx = sum(slx_vars) * slx_lags
+                    kx = results[r].k - results[r].kstar - 1 - kwx
+                results[r].slx_vars = slx_vars
+                var_types = ['o'] + ['x']*kx + ['wx'] * kwx + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
             else:
                 var_types = ['o'] + ['x'] * (len(results[r].name_x)-1) + ['yend'] * (len(results[r].name_yend)-1) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x + results[r].name_yend,
@@ -863,7 +870,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             if spat_diag:
                 results[r].other_mid += _spat_diag_out(results[r], results[r].w, 'yend')
             if spat_impacts:
-                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags)
+                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags, slx_vars)
                 results[r].other_mid += impacts_str
             counter += 1
         self.multi = results
-- 
2.43.0


From 163bf5bc0a6652c7b87cd379193c6bccc064c3e8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:03:33 +0000
Subject: [PATCH 56/60] fix: SUR with regimes and a spatial lag common to all
 of them failed to print the Chow tests between equations

---
 spreg/summary_output.py | 59 +++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 33145e8..d259e71 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1895,42 +1895,33 @@ def summary_diag_sur(
                     regK = len(reg.regimes_set)
                 else:
                     regK = 1
-                kx = len(reg.surchow)
-                kend = 0
-                if tsls:
-                    kend = len(reg.name_bigyend[list(reg.name_bigyend.keys())[0]])
-                    kx += -kend
-                names_chow = {}
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    names_chow[k] = ""
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kxadj = int(k - (reg_counter - 1) * kend / regK)
-                        for i in reg.name_bigX:
-                            names_chow[k] += reg.name_bigX[i][kxadj] + ", "
-                    else:
-                        for j in reg.name_bigyend:
-                            kxadj = int(k - kx * reg_counter / regK)
-                            names_chow[k] += reg.name_bigyend[j][kxadj] + ", "
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
-                    if len(names_chow[k]) > 42:
-                        names_chow[k] = names_chow[k][0:38] + "..."
-                    else:
-                        names_chow[k] = names_chow[k][:-2]
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kadj = int(k - (reg_counter - 1) * kend / regK)
+                eq0 = list(reg.name_bigX.keys())[0]
+                kx = len(reg.name_bigX[eq0])
+                kend = len(reg.name_bigyend[eq0]) if tsls else 0
+                # coefficients of a regime together, those common to all regimes last
+                order = []
+                for r in range(regK):
+                    order += range(r * (kx // regK), (r + 1) * (kx // regK))
+                    order += range(
+                        kx + r * (kend // regK), kx + (r + 1) * (kend // regK)
+                    )
+                order += [k for k in range(len(reg.surchow)) if k not in order]
+                for k in order:
+                    names_chow = ""
+                    for i in reg.name_bigX:
+                        if k < kx:
+                            names_chow += reg.name_bigX[i][k] + ", "
+                        else:
+                            names_chow += reg.name_bigyend[i][k - kx] + ", "
+                    if len(names_chow) > 42:
+                        names_chow = names_chow[0:38] + "..."
                     else:
-                        kadj = int(kx + k - kx * reg_counter / regK)
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
+                        names_chow = names_chow[:-2]
                     strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-                        names_chow[k],
-                        reg.surchow[kadj][1],
-                        reg.surchow[kadj][0],
-                        reg.surchow[kadj][2],
+                        names_chow,
+                        reg.surchow[k][1],
+                        reg.surchow[k][0],
+                        reg.surchow[k][2],
                     )
             if spat_diag and chow_lamb:
                 strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-- 
2.43.0


From b62ff81c331207ffb0bbb74f4281232872e0eba6 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:08:22 +0000
Subject: [PATCH 57/60] fix: degrees of freedom printed for the global Chow
 test within equations counted the variables of another equation or of the
 exogenous part only

---
 spreg/summary_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index d259e71..432a71e 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1584,7 +1584,7 @@ def summary_chow(reg, lambd=False, sur=False):
         )
     sum_text += "%25s        %2d    %12.3f        %9.4f\n" % (
         "Global test",
-        reg.kr * (reg.nr - 1),
+        len(regi) * (reg.nr - 1),
         joint[0],
         joint[1],
     )
-- 
2.43.0


From fb77a7df03d1a1d26aa5fa010d939ea77e35e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:29 +0000
Subject: [PATCH 58/60] fix: NSLX accepted coordinates of another length and
 failed inside the estimation

---
 spreg/nslx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index 3207a22..5f351c5 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -321,6 +321,8 @@ class NSLX(BaseNSLX):
         y, name_y = USER.check_y(y, n, name_y)
         
         coords,name_coords = USER.check_coords(coords,name_coords)
+        if coords.shape[0] != n:
+            raise Exception("coords must have as many rows as y and x")
         x_constant, name_x, warn = USER.check_constant(x, name_x)
         
         name_x = USER.set_name_x(name_x, x_constant) # needs to be initialized for none, now with constant
-- 
2.43.0


From 56b64dce3055182b91e76ba0c87cd9ec19991e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 59/60] fix: breusch_pagan and koenker_bassett could not be
 given variables z

---
 spreg/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 2811c17..f2802a3 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -800,7 +800,7 @@ def breusch_pagan(reg, z=None):
     den = ete / n
     g = e2 / den - 1.0
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
@@ -1112,7 +1112,7 @@ def koenker_bassett(reg, z=None):
     g = u - ubari
     v = (1.0 / n) * np.sum((u - ubar) ** 2)
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
-- 
2.43.0


From cda74b57db0c6031c9534a5ec4e4e5b8c699637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:00 +0000
Subject: [PATCH 60/60] fix: dgp_spdurbin and dgp_gns went on with weights of
 other dimensions after reporting them

---
 spreg/dgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index a61b7f7..f60932d 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -659,6 +659,7 @@ def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     y1 = xb + wxg + u
     y = inverse_prod(w,y1,rho,inv_method=imethod)
     if ybin:
@@ -784,6 +785,7 @@ def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=Fals
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     if model == 'sar':
         u1 = inverse_prod(w,u,lam,inv_method=imethod)
     elif model == 'ma':
-- 
2.43.0

