From 547abed0e2deb3f9ed87db64464ca03eb6537d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 1/4] fix: smoothly_clipped_line returns NaN for a line of zero
 slope

---
 diffstar/diffstarpop/utils.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 1bb6d1c..5c50abc 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -179,23 +179,16 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
         The y-values corresponding to x, smoothly clipped within [y_lo, y_hi].
 
     """
-    x_lo = (y_lo - y0) / m + x0  # value of x at which y=y_lo
-    x_hi = (y_hi - y0) / m + x0  # value of x at which y=y_hi
+    # the transitions are located in y rather than in x so that m=0 is well defined
+    y_lo_bound = y_lo + (y0 - y_lo) / 100.0  # value of y=y_lo+ε
+    y_hi_bound = y_hi - (y_hi - y0) / 100.0  # value of y=y_hi-ε
 
-    dx_lo = x0 - x_lo
-    dx_hi = x_hi - x0
-
-    eps_lo = dx_lo / 100.0  # tiny step in x above x_lo
-    eps_hi = dx_hi / 100.0  # tiny step in x below x_hi
-
-    xc_lo = x_lo + eps_lo  # value of x at which y=y_lo+ε
-    xc_hi = x_hi - eps_hi  # value of x at which y=y_hi-ε
-
-    y_lo_bound = y0 + m * (xc_lo - x0)  # value of y=y_lo+ε
-    y_hi_bound = y0 + m * (xc_hi - x0)  # value of y=y_hi-ε
-
-    CLIPPING_K = 20.0 / eps_lo  # Steep transition speed for this Δx
+    CLIPPING_K = 2000.0 / (y0 - y_lo)  # Steep transition speed for this Δy
     y_unclipped = y0 + m * (x - x0)
-    y_clipped_from_below = _sigmoid(x, xc_lo, CLIPPING_K, y_lo_bound, y_unclipped)
-    y_clipped = _sigmoid(x, xc_hi, CLIPPING_K, y_clipped_from_below, y_hi_bound)
+    y_clipped_from_below = _sigmoid(
+        y_unclipped, y_lo_bound, CLIPPING_K, y_lo_bound, y_unclipped
+    )
+    y_clipped = _sigmoid(
+        y_unclipped, y_hi_bound, CLIPPING_K, y_clipped_from_below, y_hi_bound
+    )
     return y_clipped
-- 
2.43.0


From da4ac4604806527f0d4aec70078df878c2cdc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 2/4] fix: extract_galacticus_sfh_tables writes to the wrong
 row when istart>0

---
 diffstar/data_loaders/extract_galacticus_sfh_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/data_loaders/extract_galacticus_sfh_data.py b/diffstar/data_loaders/extract_galacticus_sfh_data.py
index 2b51dca..2fdfa43 100644
--- a/diffstar/data_loaders/extract_galacticus_sfh_data.py
+++ b/diffstar/data_loaders/extract_galacticus_sfh_data.py
@@ -71,8 +71,8 @@ def extract_galacticus_sfh_tables(fn, colname, istart=0, iend=None):
                     [sfh_data_igal[j] for j in range(n_met, 2 * n_met)]
                 )
 
-                delta_mstar_in_situ_table[igal, :] = np.sum(X_sfh_in_situ, axis=0)
-                delta_mstar_tot_table[igal, :] = np.sum(X_sfh_tot, axis=0)
+                delta_mstar_in_situ_table[igal - istart, :] = np.sum(X_sfh_in_situ, axis=0)
+                delta_mstar_tot_table[igal - istart, :] = np.sum(X_sfh_tot, axis=0)
 
     return delta_mstar_tot_table, delta_mstar_in_situ_table, tarr
 
-- 
2.43.0


From 26400e3b302fafb26560287e2ce9ca63d1a8bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 3/4] fix: minimizer_wrapper stops restarting after a NaN loss
 followed by a NaN start

---
 diffstar/fitting_helpers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 281586b..4f89100 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -142,7 +142,7 @@ def minimizer_wrapper(
             loss_best_list.append(999.99)
             success_list.append(-1)
 
-            loss_best_current = np.min(loss_best_list)
+            loss_best_current = np.nanmin(loss_best_list)
             iter_id += 1
         else:
             res = minimize(
-- 
2.43.0


From 73708ec920bbac10afdbd56b29d3a4dfaeb7230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 4/4] fix: load_fit_sfh reads the columns that fit files hold

The model has no depletion time any more: get_header and
write_collated_data write no tau_dep column, so loading a fit file
raised KeyError. The docstring already gives four main-sequence columns.
---
 diffstar/data_loaders/load_smah_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index 48aa091..ec30cbb 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -167,7 +167,6 @@ def load_fit_sfh(basename, data_drn=BEBOP):
                 hdf["lgy_at_mcrit"][:],
                 hdf["indx_lo"][:],
                 hdf["indx_hi"][:],
-                hdf["tau_dep"][:],
             ]
         ).T
         q_fit_params = np.array(
-- 
2.43.0

