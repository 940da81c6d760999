From 7e099a9dd85eff956b0e9c242eead77be7b35f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 01/15] fix: smoothly_clipped_line is finite for zero slope and
 y0 at the lower bound

---
 diffstar/diffstarpop/utils.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 1bb6d1c..bc09aac 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -179,23 +179,17 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
         The y-values corresponding to x, smoothly clipped within [y_lo, y_hi].
 
     """
-    x_lo = (y_lo - y0) / m + x0  # value of x at which y=y_lo
-    x_hi = (y_hi - y0) / m + x0  # value of x at which y=y_hi
+    y_lo_bound = y_lo + (y0 - y_lo) / 100.0  # value of y=y_lo+ε
+    y_hi_bound = y_hi - (y_hi - y0) / 100.0  # value of y=y_hi-ε
 
-    dx_lo = x0 - x_lo
-    dx_hi = x_hi - x0
-
-    eps_lo = dx_lo / 100.0  # tiny step in x above x_lo
-    eps_hi = dx_hi / 100.0  # tiny step in x below x_hi
-
-    xc_lo = x_lo + eps_lo  # value of x at which y=y_lo+ε
-    xc_hi = x_hi - eps_hi  # value of x at which y=y_hi-ε
-
-    y_lo_bound = y0 + m * (xc_lo - x0)  # value of y=y_lo+ε
-    y_hi_bound = y0 + m * (xc_hi - x0)  # value of y=y_hi-ε
-
-    CLIPPING_K = 20.0 / eps_lo  # Steep transition speed for this Δx
+    # Clip in y rather than in x, so that flat lines (m=0) remain well-defined
+    dy_min = 1e-6 * (y_hi - y_lo)
+    CLIPPING_K = 2000.0 / jnp.maximum(y0 - y_lo, dy_min)  # Steep transition for this Δy
     y_unclipped = y0 + m * (x - x0)
-    y_clipped_from_below = _sigmoid(x, xc_lo, CLIPPING_K, y_lo_bound, y_unclipped)
-    y_clipped = _sigmoid(x, xc_hi, CLIPPING_K, y_clipped_from_below, y_hi_bound)
+    y_clipped_from_below = _sigmoid(
+        y_unclipped, y_lo_bound, CLIPPING_K, y_lo_bound, y_unclipped
+    )
+    y_clipped = _sigmoid(
+        y_unclipped, y_hi_bound, CLIPPING_K, y_clipped_from_below, y_hi_bound
+    )
     return y_clipped
-- 
2.43.0


From db3afed34b95a11528c1f21ff60cf218e329251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 02/15] fix: minimizer_wrapper keeps the best finite fit when
 some starts fail

Failed starts were recorded with a loss of 999.99, which stopped the restarts
through a NaN minimum, beat genuine fits with a larger loss, and infinite
losses were returned with success 1.
---
 diffstar/fitting_helpers/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 281586b..56ee9c3 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -139,10 +139,9 @@ def minimizer_wrapper(
         p_init_run, isnan = return_random_pinit(p_init, loss_data, loss_func_deriv)
         if isnan:
             p_best_list.append(p_init[0])
-            loss_best_list.append(999.99)
+            loss_best_list.append(np.nan)
             success_list.append(-1)
 
-            loss_best_current = np.min(loss_best_list)
             iter_id += 1
         else:
             res = minimize(
@@ -153,7 +152,7 @@ def minimizer_wrapper(
                 args=(loss_data,),
             )
             p_best = res.x
-            loss_best = float(res.fun)
+            loss_best = float(res.fun) if np.isfinite(res.fun) else np.nan
             success = 1
 
             p_best_list.append(p_best)
-- 
2.43.0


From 64fd28324e50735d9b4827cf43941f3836702dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 03/15] fix: minimizer does not report success when L-BFGS-B
 ends at a NaN loss

SciPy calls a run that starts at a NaN or infinite loss converged; fall back to
Adam, which documents and reports the problem.
---
 diffstar/fitting_helpers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 56ee9c3..fa82e84 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -48,7 +48,7 @@ def minimizer(loss_func, loss_func_deriv, p_init, loss_data, nstep, *args, **kwa
     loss_best = float(res.fun)
     success = 1
 
-    if not res.success:
+    if not (res.success and np.isfinite(loss_best)):
         _res = jax_adam_wrapper_v2(
             loss_func, p_init, loss_data, nstep, n_warmup=2, *args, **kwargs
         )
-- 
2.43.0


From 09e869c5b1cb124886050c0c79a28ce7fa75da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 04/15] fix: get_weights never re-includes snapshots excluded
 from the fit

The half weights near the final mass and near the peak averaged SFR overwrote
the exclusion of snapshots that are too early or not massive enough.
---
 diffstar/fitting_helpers/diffstar_fitting_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/fitting_helpers/diffstar_fitting_helpers.py b/diffstar/fitting_helpers/diffstar_fitting_helpers.py
index f5f4352..3c67acc 100644
--- a/diffstar/fitting_helpers/diffstar_fitting_helpers.py
+++ b/diffstar/fitting_helpers/diffstar_fitting_helpers.py
@@ -172,12 +172,12 @@ def get_weights(
 
     weight = np.ones_like(t_table)
     weight[~mask] = 1e10
-    weight[log_smah_sim[-1] - log_smah_sim < 0.1] = 0.5
+    weight[mask & (log_smah_sim[-1] - log_smah_sim < 0.1)] = 0.5
     weight = jnp.array(weight)
 
     weight_fstar = np.ones_like(t_table)
     weight_fstar[~mask] = 1e10
-    weight_fstar[log_fstar_sim.max() - log_fstar_sim < 0.1] = 0.5
+    weight_fstar[mask & (log_fstar_sim.max() - log_fstar_sim < 0.1)] = 0.5
     weight_fstar[weight_fstar == -10.0] = 1e10
     weight_fstar[t_table < fstar_tdelay + 0.01] = 1e10
 
-- 
2.43.0


From 9b5b87c1c9a8a623a7f25117631234dbd4fee667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 05/15] fix: load_fit_sfh reads the columns that the fitter
 writes

The tau_dep parameter was removed from the model, so that no catalogue written
by write_collated_data could be loaded.
---
 diffstar/data_loaders/load_smah_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index 48aa091..ec30cbb 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -167,7 +167,6 @@ def load_fit_sfh(basename, data_drn=BEBOP):
                 hdf["lgy_at_mcrit"][:],
                 hdf["indx_lo"][:],
                 hdf["indx_hi"][:],
-                hdf["tau_dep"][:],
             ]
         ).T
         q_fit_params = np.array(
-- 
2.43.0


From fbd7c0d41491e6c90f42c68b139a391121ac0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 06/15] fix: extract_galacticus_sfh_tables works for blocks
 that do not start at zero

Rows of the output tables were indexed by the absolute galaxy index.
---
 diffstar/data_loaders/extract_galacticus_sfh_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/data_loaders/extract_galacticus_sfh_data.py b/diffstar/data_loaders/extract_galacticus_sfh_data.py
index 2b51dca..2fdfa43 100644
--- a/diffstar/data_loaders/extract_galacticus_sfh_data.py
+++ b/diffstar/data_loaders/extract_galacticus_sfh_data.py
@@ -71,8 +71,8 @@ def extract_galacticus_sfh_tables(fn, colname, istart=0, iend=None):
                     [sfh_data_igal[j] for j in range(n_met, 2 * n_met)]
                 )
 
-                delta_mstar_in_situ_table[igal, :] = np.sum(X_sfh_in_situ, axis=0)
-                delta_mstar_tot_table[igal, :] = np.sum(X_sfh_tot, axis=0)
+                delta_mstar_in_situ_table[igal - istart, :] = np.sum(X_sfh_in_situ, axis=0)
+                delta_mstar_tot_table[igal - istart, :] = np.sum(X_sfh_tot, axis=0)
 
     return delta_mstar_tot_table, delta_mstar_in_situ_table, tarr
 
-- 
2.43.0


From e0ffdb4c7548e17d2057550eff4d54d87e7253ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 07/15] fix: single-precision inputs work when JAX 64-bit mode
 is on

---
 diffstar/diffstarpop/sumstats/diffndhist.py | 4 ++--
 diffstar/diffstarpop/utils.py               | 4 ++--
 diffstar/kernels/history_kernel_builders.py | 3 ++-
 diffstar/utils.py                           | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/diffstar/diffstarpop/sumstats/diffndhist.py b/diffstar/diffstarpop/sumstats/diffndhist.py
index 61e2c5a..994ea92 100644
--- a/diffstar/diffstarpop/sumstats/diffndhist.py
+++ b/diffstar/diffstarpop/sumstats/diffndhist.py
@@ -14,8 +14,8 @@ def _tw_cuml_lax_kern(x, m, h):
     """
     z = (x - m) / h
     val = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2
-    val = lax.cond(z < -3, lambda s: 0.0, lambda s: val, z)
-    val = lax.cond(z > 3, lambda s: 1.0, lambda s: val, z)
+    val = lax.cond(z < -3, lambda s: jnp.zeros_like(val), lambda s: val, z)
+    val = lax.cond(z > 3, lambda s: jnp.ones_like(val), lambda s: val, z)
     return val
 
 
diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index bc09aac..5de83fd 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -90,8 +90,8 @@ def _tw_cuml_lax_kern(x, m, h):
     """
     z = (x - m) / h
     val = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2
-    val = lax.cond(z < -3, lambda s: 0.0, lambda s: val, z)
-    val = lax.cond(z > 3, lambda s: 1.0, lambda s: val, z)
+    val = lax.cond(z < -3, lambda s: jnp.zeros_like(val), lambda s: val, z)
+    val = lax.cond(z > 3, lambda s: jnp.ones_like(val), lambda s: val, z)
     return val
 
 
diff --git a/diffstar/kernels/history_kernel_builders.py b/diffstar/kernels/history_kernel_builders.py
index ecd1384..b70e9a5 100644
--- a/diffstar/kernels/history_kernel_builders.py
+++ b/diffstar/kernels/history_kernel_builders.py
@@ -23,7 +23,8 @@ def _sfh_singlegal_scalar(tform, mah_params, ms_params, q_params, logt0, fb):
     qfunc = _quenching_kern(lgt_form, *q_params)
 
     sfr = qfunc * sfr_ms
-    sfr = lax.cond(sfr < SFR_MIN, lambda x: SFR_MIN, lambda x: x, sfr)
+    sfr_min = jnp.full_like(sfr, SFR_MIN)
+    sfr = lax.cond(sfr < SFR_MIN, lambda x: sfr_min, lambda x: x, sfr)
 
     return sfr
 
diff --git a/diffstar/utils.py b/diffstar/utils.py
index dd9d264..32ce5a8 100644
--- a/diffstar/utils.py
+++ b/diffstar/utils.py
@@ -130,10 +130,10 @@ def tw_cuml_jax_kern(x, m, h):
     y = (x - m) / h
     return lax.cond(
         y < -3,
-        lambda x: 0.0,
+        lambda x: jnp.zeros_like(x),
         lambda x: lax.cond(
             x > 3,
-            lambda xx: 1.0,
+            lambda xx: jnp.ones_like(xx),
             lambda xx: (
                 -5 * xx**7 / 69984
                 + 7 * xx**5 / 2592
-- 
2.43.0


From 79b5246e19628879de0f0e18f5efe4aeef1583fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 08/15] fix: diffstar fitting scripts pass the requested fit
 settings to the fitter

---
 scripts/diffstar_fitting_script_umachine.py        | 1 +
 scripts/diffstar_fitting_script_umachine_mgash.py  | 1 +
 scripts/galacticus_diffstar_fitter_script.py       | 2 +-
 scripts/galacticus_diffstar_fitter_script_mgash.py | 2 +-
 scripts/history_fitting_script_TNG_mgash.py        | 2 +-
 5 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index 157f9ce..e5abf42 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -194,6 +194,7 @@ if __name__ == "__main__":
                         mah_params,
                         lgt0=np.log10(T0_SMDPL),
                         fb=FB_SMDPL,
+                        **kwargs,
                     )
                     sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                     outline = dfh.get_outline(
diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index e87cf54..30743b7 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -194,6 +194,7 @@ if __name__ == "__main__":
                         mah_params,
                         lgt0=np.log10(T0_SMDPL),
                         fb=FB_SMDPL,
+                        **kwargs,
                     )
                     sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                     outline = dfh.get_outline(
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6f11ec3..6881426 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
 
             if run_fitter:
                 _res = dfh.diffstar_fitter(
-                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB
+                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB, **kwargs
                 )
                 sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                 outline = dfh.get_outline(
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6f11ec3..6881426 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
 
             if run_fitter:
                 _res = dfh.diffstar_fitter(
-                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB
+                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB, **kwargs
                 )
                 sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                 outline = dfh.get_outline(
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index cb634f7..1f8d5a5 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -125,7 +125,7 @@ if __name__ == "__main__":
             logmp_halo = logmp_for_rank[i]
 
             _res = dfh.diffstar_fitter(
-                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG
+                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG, **kwargs
             )
             sfh_params_best, diffstar_loss, diffstar_fit_success = _res
             outline = dfh.get_outline(
-- 
2.43.0


From 58a7f1b583cf3651fbb0375b0086c299978bc20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 09/15] fix: fitting scripts collate the results of ranks with
 a single galaxy

---
 scripts/diffstar_fitting_script_umachine.py                     | 2 +-
 scripts/diffstar_fitting_script_umachine_mgash.py               | 2 +-
 scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py | 2 +-
 scripts/galacticus_diffstar_fitter_script.py                    | 2 +-
 scripts/galacticus_diffstar_fitter_script_mgash.py              | 2 +-
 scripts/history_fitting_script_TNG_mgash.py                     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index e5abf42..0ab0d45 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -220,7 +220,7 @@ if __name__ == "__main__":
             collector = []
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
-                fit_data = np.genfromtxt(fit_fn, dtype="str")
+                fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
                 collector.append(fit_data)
             subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index 30743b7..e469e29 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -220,7 +220,7 @@ if __name__ == "__main__":
             collector = []
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
-                fit_data = np.genfromtxt(fit_fn, dtype="str")
+                fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
                 collector.append(fit_data)
             subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
index 1ebf68f..a16d7ac 100644
--- a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
+++ b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
@@ -121,7 +121,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6881426..2f1e728 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -171,7 +171,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6881426..2f1e728 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -171,7 +171,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index 1f8d5a5..de4dc79 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -148,7 +148,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 88147b06974ba037ab35d366db6773b17d741dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 10/15] fix: halos without a usable diffmah fit are reported
 and treated as unfitted

---
 diffstar/data_loaders/load_smah_data.py     |  1 +
 scripts/history_fitting_script_TNG_mgash.py | 19 +++++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index ec30cbb..9c1f3a4 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -136,6 +136,7 @@ def load_smdpl_diffmah_fits(
     late = np.where(msk_nofit, _zz - 1.0, late)
     t_peak = np.where(msk_nofit, _zz - 1.0, t_peak)
     mah_params = dk.DEFAULT_MAH_PARAMS._make((logm0, logtc, early, late, t_peak))
+    loss = np.where(msk_nofit, _zz - 1.0, loss)
 
     return mah_params, logmp0, loss, n_points_per_fit
 
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index de4dc79..6bf10ea 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -93,7 +93,7 @@ if __name__ == "__main__":
     diffmah_str = "diffmah_tng_fits.hdf5"
     bn_diffmah = os.path.join(indir_diffmah, diffmah_str)
     _res = load_precomputed_diffmah_fits(bn_diffmah, T0, istart=istart, iend=iend)
-    mah_params_for_rank, logmp_for_rank = _res[:2]
+    mah_params_for_rank, logmp_for_rank, diffmah_loss_for_rank = _res[:3]
 
     halo_ids_for_rank = halo_ids[indx_for_rank]
     log_smahs_for_rank = log_smahs[indx_for_rank]
@@ -124,13 +124,16 @@ if __name__ == "__main__":
             mah_params = DiffmahParams(*[x[i] for x in mah_params_for_rank])
             logmp_halo = logmp_for_rank[i]
 
-            _res = dfh.diffstar_fitter(
-                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG, **kwargs
-            )
-            sfh_params_best, diffstar_loss, diffstar_fit_success = _res
-            outline = dfh.get_outline(
-                halo_id, sfh_params_best, diffstar_loss, diffstar_fit_success
-            )
+            if diffmah_loss_for_rank[i] > 0:
+                _res = dfh.diffstar_fitter(
+                    tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG, **kwargs
+                )
+                sfh_params_best, diffstar_loss, diffstar_fit_success = _res
+                outline = dfh.get_outline(
+                    halo_id, sfh_params_best, diffstar_loss, diffstar_fit_success
+                )
+            else:
+                outline = dfh.get_outline_nofit(halo_id)
 
             fout.write(outline)
 
-- 
2.43.0


From e13e348ec0b01bbdbc85861bcb009d43e06d2c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:06 +0000
Subject: [PATCH 11/15] fix: calibration without a usable step saves the
 starting parameters, not zeros

---
 scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py b/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
index ef0732f..2cc5610 100644
--- a/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
+++ b/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
@@ -149,8 +149,7 @@ if __name__ == "__main__":
     opt_init, opt_update, get_params = jax_opt.adam(step_size)
     opt_state = opt_init(params_init)
 
-    n_params = len(params_init)
-    params_arr = np.zeros((n_step, n_params)).astype("f4")
+    params_arr = np.tile(np.array(params_init).astype("f4"), (n_step, 1))
 
     n_mah = 100
 
-- 
2.43.0


From 17e6aac004274bde67bf86c89463bb7d61c6f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 12/15] fix: measurement programs pass the baryon fraction to
 the SFH model

---
 scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py | 4 ++--
 scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
index 28fa747..d4de035 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
@@ -6,7 +6,7 @@ import h5py
 import numpy as np
 from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
 from diffsky.diffndhist import tw_ndhist_weighted
-from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN
+from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0, T_TABLE_MIN
 from diffstar.sfh_model import calc_sfh_galpop
 from diffstar.data_loaders.load_galacticus_sfh import load_galacticus_diffstar_data
 from scipy.stats import binned_statistic
@@ -71,7 +71,7 @@ def load_diffstar_sfh_tables(
     __, log_mah_table = mah_halopop(mah_params, t_table, LGT0)
 
     sfh_table, smh_table = calc_sfh_galpop(
-        sfh_params, mah_params, t_table, lgt0=LGT0, return_smh=True
+        sfh_params, mah_params, t_table, lgt0=LGT0, fb=FB, return_smh=True
     )
     log_sfh_table = np.log10(sfh_table)
     log_smh_table = np.log10(smh_table)
diff --git a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
index 2ec5211..ddbaff0 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
@@ -6,7 +6,7 @@ import h5py
 import numpy as np
 from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
 from diffsky.diffndhist import tw_ndhist_weighted
-from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN
+from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0, T_TABLE_MIN
 from diffstar.sfh_model import calc_sfh_galpop
 from scipy.stats import binned_statistic
 from astropy.cosmology import Planck13
@@ -155,7 +155,7 @@ def load_diffstar_sfh_tables(
     __, log_mah_table = mah_halopop(mah_params, t_table, LGT0)
 
     sfh_table, smh_table = calc_sfh_galpop(
-        sfh_params, mah_params, t_table, lgt0=LGT0, return_smh=True
+        sfh_params, mah_params, t_table, lgt0=LGT0, fb=FB, return_smh=True
     )
     log_sfh_table = np.log10(sfh_table)
     log_smh_table = np.log10(smh_table)
-- 
2.43.0


From 15d872692f89c0ab91b548a0b94dfc402a28a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 13/15] fix: fit-quality averages count snapshots with an SFR
 of exactly 1 Msun/yr

---
 .../calculate_quality_diffstar_fits_mgash.py  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py b/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
index c2df9cb..a654d60 100644
--- a/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
+++ b/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
@@ -100,7 +100,7 @@ def calculate_plot_smdpl_nomerging(mpeak_bins):
 
         out = load_SMDPL_nomerging_data([subvol], binaries_drn)
         (halo_ids, log_smahs, sfrh, SMDPL_t, log_mahs, logmp0) = out
-        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
 
         _log_smahs_data = log_smahs[has_fit]
         _log_sfrh_data = log_sfrh[has_fit]
@@ -111,7 +111,7 @@ def calculate_plot_smdpl_nomerging(mpeak_bins):
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
         sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[has_fit]
 
@@ -205,7 +205,7 @@ def calculate_plot_smdpl_dr1(mpeak_bins):
 
         out = load_SMDPL_DR1_data([subvol], binaries_drn)
         (halo_ids, log_smahs, sfrh, SMDPL_t, log_mahs, logmp0) = out
-        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
 
         _log_smahs_data = log_smahs[has_fit]
         _log_sfrh_data = log_sfrh[has_fit]
@@ -216,7 +216,7 @@ def calculate_plot_smdpl_dr1(mpeak_bins):
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
         sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[has_fit]
 
@@ -266,7 +266,7 @@ def calculate_plot_tng(mpeak_bins):
     mpeak_binsc = 0.5 * (mpeak_bins[1:] + mpeak_bins[:-1])
     out = load_tng_data(binaries_drn)
     (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(tng_t)
     n_subvol_smdpl = 20
 
@@ -315,7 +315,7 @@ def calculate_plot_tng(mpeak_bins):
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
         sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[indx][has_fit]
 
@@ -379,7 +379,7 @@ def calculate_plot_galcus_insitu(mpeak_bins):
     logmp0 = log_mah_fit[:, -1]
 
     # (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(galcus_t)
 
     mstar_data_mean = np.zeros((len(mpeak_binsc), nt))
@@ -418,7 +418,7 @@ def calculate_plot_galcus_insitu(mpeak_bins):
     smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
     sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
     smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-    sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+    sfrh_data = 10**_log_sfrh_data
 
     logmp0_data = logmp0[has_fit]
 
@@ -482,7 +482,7 @@ def calculate_plot_galcus_inplusexsitu(mpeak_bins):
     logmp0 = log_mah_fit[:, -1]
 
     # (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(galcus_t)
 
     mstar_data_mean = np.zeros((len(mpeak_binsc), nt))
@@ -521,7 +521,7 @@ def calculate_plot_galcus_inplusexsitu(mpeak_bins):
     smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
     sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
     smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-    sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+    sfrh_data = 10**_log_sfrh_data
 
     logmp0_data = logmp0[has_fit]
 
-- 
2.43.0


From fe2a04b977b1100625c94b335d0366df622092fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 14/15] fix: reload ragged lists of more than 10000 arrays in
 the order they were saved

The datasets are named by their zero-padded position (4 digits), and were
read back in string order.
---
 scripts/diffstarpop_scripts/save_loss_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/diffstarpop_scripts/save_loss_data.py b/scripts/diffstarpop_scripts/save_loss_data.py
index e0df86c..57b04b5 100644
--- a/scripts/diffstarpop_scripts/save_loss_data.py
+++ b/scripts/diffstarpop_scripts/save_loss_data.py
@@ -264,7 +264,7 @@ def load_loss_data_h5(filename: str):
                         else obj.attrs.get("format", "")
                     )
                     if fmt in ("ragged_list_of_datasets", "list_of_datasets"):
-                        items = [obj[k][()] for k in sorted(obj.keys())]
+                        items = [obj[k][()] for k in sorted(obj.keys(), key=int)]
                         out.append(items)
                     else:
                         # Unknown layout—try datasets in key order
-- 
2.43.0


From 8ac7d799c9416401e6ae55a9cafa899d47f929c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 15/15] fix: quenching durations given as whole numbers

An integer log duration was raised to an integer power (10**-1 == 0 in
integers), so the quenching event had the wrong width.
---
 diffstar/kernels/history_kernel_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/kernels/history_kernel_builders.py b/diffstar/kernels/history_kernel_builders.py
index b70e9a5..fbb2b0e 100644
--- a/diffstar/kernels/history_kernel_builders.py
+++ b/diffstar/kernels/history_kernel_builders.py
@@ -18,7 +18,7 @@ def _sfh_singlegal_scalar(tform, mah_params, ms_params, q_params, logt0, fb):
     sfr_ms = sfh_ms_kernel(tform, mah_params, ms_params, logt0, fb)
 
     lg_qt, qlglgdt, lg_drop, lg_rejuv = q_params
-    lg_q_dt = 10**qlglgdt
+    lg_q_dt = 10.0**qlglgdt
     q_params = (lg_qt, lg_q_dt, lg_drop, lg_rejuv)
     qfunc = _quenching_kern(lgt_form, *q_params)
 
-- 
2.43.0

