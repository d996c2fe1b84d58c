From 15b22088275326af35a0debf36d56adc64f46e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 01/26] fix: antiderivative of u0 when there is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a2c0d60..e3a0ce2 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -379,7 +379,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        if is_antiderivative_wrt_tau and there_is_beam_source:
+        if is_antiderivative_wrt_tau:
             if there_is_beam_source:
                 direct_beam_contribution = (B_collect_0.T / (-scale_tau / mu0)[None, :])[
                     :, l
-- 
2.43.0


From a8d9b09a5711ddbc4f2a9f44aea0c319cbe95451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:00 +0000
Subject: [PATCH 02/26] fix: scale factor of the isotropic-source
 antiderivative must follow the layer of each tau

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/subroutines.py                    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index e3a0ce2..cfe8a41 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -236,7 +236,7 @@ def _assemble_intensity_and_fluxes(
             if there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
                 _mathscr_v_contribution = _mathscr_v(
-                    scaled_tau, scale_tau, l_inv, 
+                    scaled_tau, scale_tau[l], l_inv, 
                     Nscoeffs,
                     scaled_s_poly_coeffs[l_uniq],
                     G_collect_0[l_uniq],
@@ -411,7 +411,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq],
@@ -470,7 +470,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, :N, :],
@@ -552,7 +552,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, N:, :],
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 19d239c..598308b 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -744,7 +744,7 @@ def to_diag_ordered_form(A, Nsuperdiags, Nsubdiags):
 
     
 def _mathscr_v(tau,                             # Input optical depths
-               scale_tau,                       # Delta-scale factor for tau
+               scale_tau,                       # Delta-scale factor for tau (of the layer of each input optical depth)
                l,                               # Layer index of each input optical depth
                Nscoeffs,                        # Number of isotropic source polynomial coefficients
                s_poly_coeffs,                   # Polynomial coefficients of isotropic source
@@ -764,7 +764,7 @@ def _mathscr_v(tau,                             # Input optical depths
     |          Variable             |                   Shape                   |
     | ----------------------------- | ----------------------------------------- |
     | ``tau``                       | ``Ntau``                                  |
-    | ``scale_tau``                 | `NLayers`                                 |
+    | ``scale_tau``                 | ``Ntau``                                  |
     | ``l``                         | ``Ntau``                                  |
     | ``Nscoeffs``                  | scalar                                    |
     | ``s_poly_coeffs``             | ``NL x Nscoeffs``                         |
@@ -855,7 +855,7 @@ def _mathscr_v(tau,                             # Input optical depths
         powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
         if is_antiderivative_wrt_tau:
             p = powers + 1
-            tau_poly = (tau[:, None] ** p) / (p * scale_tau)
+            tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])
         else:
             tau_poly = tau[:, None] ** powers
 
-- 
2.43.0


From a19f5d30799cacc2d16690dc2b8b966151840c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 03/26] fix: layer indexing in the antiderivative of the
 downward flux

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index cfe8a41..ab697aa 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -577,7 +577,7 @@ def _assemble_intensity_and_fluxes(
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, l])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                 direct_beam = I0 * mu0 * np.exp(-tau / mu0) * -mu0
                 direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[None, l]
             
-- 
2.43.0


From 10be5695159e63087410de69a7929a21be6775ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 04/26] fix: Fourier error must use the last Fourier mode of
 the intensity

---
 .../_assemble_intensity_and_fluxes.py         | 38 +------------------
 1 file changed, 1 insertion(+), 37 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index ab697aa..f460875 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -263,43 +263,7 @@ def _assemble_intensity_and_fluxes(
             output_is_tuple = False
 
             if return_Fourier_error:
-                exponent = np.concatenate(
-                    [
-                        K_collect[-1, l, :N] * (scaled_tau - scaled_tau_arr_lm1)[:, None],
-                        K_collect[-1, l, N:] * (scaled_tau - scaled_tau_arr_l)[:, None],
-                    ],
-                    axis=-1,
-                )
-                
-                direct_beam_contribution = 0
-                if is_antiderivative_wrt_tau:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, :] / (-scale_tau / mu0)[None, :]
-                        )[:, l] * np.exp(-scaled_tau / mu0)[None, :]
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it",
-                            GC_collect[-1, l, :, :],
-                            np.exp(exponent) / (scale_tau[:, None] * K_collect[-1, :, :])[l, :],
-                            optimize=True,
-                        )
-                        + direct_beam_contribution
-                    )
-                else:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, l] * np.exp(-scaled_tau / mu0)[None, :]
-                        )
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it", GC_collect[-1, l, :, :], np.exp(exponent), optimize=True
-                        )
-                        + direct_beam_contribution
-                    )
-        
+                ulast = um[-1]
                 u_abs = np.abs(u)
                 Fourier_error = np.max(
                     np.divide(
-- 
2.43.0


From 0af1546a083f4fd873ec19ff7c2856d654090c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 05/26] fix: tell boundary condition matrices from vectors and
 scalars by their number of dimensions

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 897550f..123a8ea 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -271,15 +271,15 @@ def pydisort(
         if not (0 <= phi0 and phi0 < 2 * pi):
             raise ValueError("Provide the principal azimuthal angle for the incident beam (must be between 0 and 2pi, excluding 2pi).")
     # Ensure that the BC inputs are of the correct shape
-    if len(np.atleast_1d(b_pos)) == 1:
+    if np.ndim(b_pos) < 2 and np.size(b_pos) == 1:
         b_pos_is_scalar = True
-    elif len(b_pos) == N:
+    elif np.shape(b_pos) == (N,):
         b_pos_is_vector = True
     elif not np.shape(b_pos) == (N, NFourier):
         raise ValueError("The shape of the bottom boundary condition is incorrect.")
-    if len(np.atleast_1d(b_neg)) == 1:
+    if np.ndim(b_neg) < 2 and np.size(b_neg) == 1:
         b_neg_is_scalar = True
-    elif len(b_neg) == N:
+    elif np.shape(b_neg) == (N,):
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-- 
2.43.0


From bed70d1a7eb1f88511ef33814f437ed3154dd08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 06/26] fix: do not divide by zero when the only source
 vanishes at both ends of the atmosphere

---
 src/PythonicDISORT/pydisort.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 123a8ea..068cac3 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -358,6 +358,8 @@ def pydisort(
                 scaled_s_poly_coeffs[-1, :] @ (scaled_tau_arr_with_0[-1] ** np.arange(Nscoeffs))
             )
         )
+        if not rescale_factor > 0:
+            rescale_factor = np.float64(1)  # The isotropic source may vanish at both ends of the atmosphere
         I0 = (I0 / rescale_factor).copy()
         b_pos = (b_pos / rescale_factor).copy()
         b_neg = (b_neg / rescale_factor).copy()
-- 
2.43.0


From 2cb10828a9283a3538147aee550c5a48e1957846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 07/26] fix: reject any zero scale factor in
 affine_transform_poly_coeffs

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 598308b..c396128 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -591,7 +591,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
         Array with columns [D_0, D_1, ..., D_n]. 
         The rows correspond to different affine transformations.
     """
-    if np.any(a_arr) == 0:
+    if np.any(a_arr == 0):
         raise ValueError("The scale factors must be non-zero.") 
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
-- 
2.43.0


From fdebf2ff8d6b3638d1cdcb4e9f02fe11f2c8bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 08/26] fix: interpolate(u0) must return tau_arr when asked to

---
 src/PythonicDISORT/subroutines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index c396128..0dc6e8c 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -678,8 +678,9 @@ def interpolate(u):
             
             mu = np.atleast_1d(mu)
 
-            if return_Fourier_error or return_tau_arr:
-                u_outputs = u(tau, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)
+            # `return_Fourier_error` has no effect because `u0` has only one Fourier mode
+            if return_tau_arr:
+                u_outputs = u(tau, is_antiderivative_wrt_tau, return_tau_arr)
                 u_cache = u_outputs[0]
             else:
                 u_cache = u(tau, is_antiderivative_wrt_tau)
@@ -695,7 +696,7 @@ def interpolate(u):
                 u_neg_interpol.set_yi(u_cache[N:])
                 results[mask_else] = u_neg_interpol(mu[mask_else])
             
-            if return_Fourier_error or return_tau_arr:
+            if return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
             else:
                 return np.squeeze(results)[()]
-- 
2.43.0


From 1b5e825410033b84cd06a3ca4d5ea64e98e6df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 09/26] fix: scale the reclassified actinic flux like the other
 outputs, and only reclassify when there is a beam

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index f460875..6eb8c86 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -322,7 +322,9 @@ def _assemble_intensity_and_fluxes(
             # The following complements the function `subroutines.generate_diff_act_flux_funcs`
             # in performing the reclassification of delta-scaled actinic flux
             if _return_act_dscale_for_reclass: 
-                if is_antiderivative_wrt_tau:
+                if not there_is_beam_source:
+                    act_dscale_reclassification = 0
+                elif is_antiderivative_wrt_tau:
                     act_dscale_reclassification = (
                         I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l] / mu0)
                         - I0 * np.exp(-tau / mu0) * -mu0
@@ -392,7 +394,7 @@ def _assemble_intensity_and_fluxes(
             outputs += (tau_arr,)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
-            outputs += (act_dscale_reclassification,)
+            outputs += (rescale_factor * act_dscale_reclassification,)
             outputs_len += 1
         return outputs[0] if outputs_len == 1 else outputs
         
-- 
2.43.0


From c209c3a824a35aa081c07f6e69aa5374ead62095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:11 +0000
Subject: [PATCH 10/26] fix: accept cached scalar BDRF Fourier modes together
 with a beam source

---
 src/PythonicDISORT/_solve_for_coeffs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index 5290d3a..fb630e7 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -129,8 +129,9 @@ def _solve_for_coeffs(
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
-                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m(
-                        mu_arr_pos, np.array([mu0])
+                    # Cached BDRF Fourier modes may output a scalar
+                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.atleast_2d(
+                        BDRF_Fourier_modes_m(mu_arr_pos, np.array([mu0]))
                     )[:, 0]
                     
         # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 03d0b9a327f6070ab2836cbecc0fea6f7fd11b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 11/26] fix: cached BDRF Fourier modes must tell the beam from
 the node when there is one node per hemisphere

---
 src/PythonicDISORT/subroutines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 0dc6e8c..71cacd8 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -537,7 +537,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
-                    if len(neg_mup) == 1
+                    if not np.array_equal(neg_mup, mu_arr_pos)
                     else BDRF_Fourier_modes_evaluated[m][:, :-1]
                 )
             )
@@ -560,7 +560,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes[m](mu_arr_pos, neg_mup)
-                    if len(neg_mup) == 1
+                    if not np.array_equal(neg_mup, mu_arr_pos)
                     else BDRF_Fourier_modes_evaluated[m]
                 )
             )
-- 
2.43.0


From 1dc7ef7405f29bcef50306b9986e61984f5bea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 12/26] fix: NT corrections with two streams and several
 azimuths

---
 src/PythonicDISORT/pydisort.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 068cac3..be0ec51 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -613,9 +613,7 @@ def pydisort(
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0)
-            )
+            nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape(N, len(phi))
             x = 1 / mu_arr_pos - 1 / scaled_mu0
             if is_antiderivative_wrt_tau:
                 chi = (
-- 
2.43.0


From 028592e9d18d02f8abf994f6c5e22bdb09989d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:21 +0000
Subject: [PATCH 13/26] fix: NT corrections are NaN when no layer both scatters
 and has a peak

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index be0ec51..b797c7b 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -374,7 +374,7 @@ def pydisort(
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
     
-    if NT_cor and not only_flux and there_is_beam_source and np.any(f_arr > 0) and NLeg < NLeg_all and np.any(omega_arr > 0):
+    if NT_cor and not only_flux and there_is_beam_source and NLeg < NLeg_all and np.any(omega_arr * f_arr > 0):
         
         ############################### Perform NT corrections on the intensity but not the flux ###############################
         ############################### Refer to section 3.7.2 of the Comprehensive Documentation ##############################
-- 
2.43.0


From 4a6aa671cd62cd96bdef8a5c22883c208a98f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 14/26] fix: weight the layer averages of the IMS correction by
 optical thickness

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index b797c7b..39adfdf 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -600,14 +600,14 @@ def pydisort(
 
         # IMS correction for the intensity (see section 3.7.2)
         # --------------------------------------------------------------------------------------------------------------------------
-        sum1 = np.sum(omega_arr * tau_arr)
-        omega_avg = sum1 / np.sum(tau_arr)
-        sum2 = np.sum(f_arr * omega_arr * tau_arr)
+        sum1 = np.sum(omega_arr * thickness_arr)
+        omega_avg = sum1 / np.sum(thickness_arr)
+        sum2 = np.sum(f_arr * omega_arr * thickness_arr)
         f_avg = sum2 / sum1
         Leg_coeffs_residue = Leg_coeffs_all.copy()
         Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T
         Leg_coeffs_residue_avg = (
-            np.sum(Leg_coeffs_residue * omega_arr[:, None] * tau_arr[:, None], axis=0)
+            np.sum(Leg_coeffs_residue * omega_arr[:, None] * thickness_arr[:, None], axis=0)
             / sum2
         )
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
-- 
2.43.0


From 71ddbe39d3d7523561151185979a692bfbd2f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 15/26] fix: reject a fractional scattering of 1 which only
 yields NaN

---
 src/PythonicDISORT/pydisort.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 39adfdf..11d1beb 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -283,9 +283,9 @@ def pydisort(
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-    # The fractional scattering must be between 0 and 1
-    if not (np.all(0 <= f_arr) and np.all(f_arr <= 1)):
-        raise ValueError("The fractional scattering must be between 0 and 1.")
+    # The fractional scattering must be between 0 and 1, excluding 1
+    if not (np.all(0 <= f_arr) and np.all(f_arr < 1)):
+        raise ValueError("The fractional scattering must be between 0 and 1, excluding 1.")
     # The minimum threshold is 3 else the matrix will not be banded
     if not use_banded_solver_NLayers >= 3:
         raise ValueError("The minimum threshold `use_banded_solver_NLayers` is 3, else the matrix will not be banded.")
-- 
2.43.0


From df45e6f95f0f83abcb15ea12b09078ec357158cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 16/26] fix: TMS correction must attenuate each layer's own
 contribution, without dividing by underflowing products

---
 src/PythonicDISORT/pydisort.py | 74 ++++++++++++++--------------------
 1 file changed, 31 insertions(+), 43 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 11d1beb..0c86a82 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -431,24 +431,24 @@ def pydisort(
                 [
                     f(nu)[:, None, :]
                     # Iterates over the 0th axis
-                    for f in map(Legendre, weighted_Leg_coeffs_all[l_uniq])
+                    for f in map(Legendre, weighted_Leg_coeffs_all)
                 ],
                 axis=1,
-            ) # (NQuad, NLayers_uniq, Nphi)
+            ) # (NQuad, NLayers, Nphi)
             p_trun = np.concatenate(
                 [
                     f(nu)[:, None, :]
                     # Iterates over the 0th axis
-                    for f in map(Legendre, weighted_scaled_Leg_coeffs[l_uniq])
+                    for f in map(Legendre, weighted_scaled_Leg_coeffs)
                 ],
                 axis=1,
-            ) # (NQuad, NLayers_uniq, Nphi)
+            ) # (NQuad, NLayers, Nphi)
             
             mathscr_B = (
-                (scaled_omega_arr[l_uniq] * I0_div_4pi)[None, :, None]
+                (scaled_omega_arr * I0_div_4pi)[None, :, None]
                 * (mu0 / (mu0 + mu_arr))[:, None, None]
-                * (p_true / (1 - f_arr)[None, l_uniq, None] - p_trun)
-            ) # (NQuad, NLayers_uniq, Nphi)
+                * (p_true / (1 - f_arr)[None, :, None] - p_trun)
+            ) # (NQuad, NLayers, Nphi)
             # --------------------------------------------------------------------------------------------------------------------------
             
             neg_scaled_tau_div_mu0 = -scaled_tau / mu0
@@ -484,7 +484,7 @@ def pydisort(
             ## Contribution from other layers
             # --------------------------------------------------------------------------------------------------------------------------
             solution = (
-                mathscr_B[:, l_inv, :]
+                mathscr_B[:, l, :]
                 * np.concatenate((TMS_correction_pos, TMS_correction_neg), axis=0)[:, :, None]
             )
             
@@ -502,19 +502,15 @@ def pydisort(
                 )  # (Nlayers, )
 
 
-                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers_uniq, Nphi)
-                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers_uniq, Nphi)
+                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers, Nphi)
+                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers, Nphi)
 
                 # decay[n,r] = exp(-scaled_thickness_arr[r]/mu[n]); always <= 1
-                log_decay = -scaled_thickness_arr[None, :] * M_inv[:, None]                    # (N, NLayers)
-
-                # decay_prod[n,k] = prod_{m=0}^{k-1} decay[n,m], with decay_prod[:,0]=1
-                log_decay_prod = np.cumsum(log_decay, axis=1) # The cumsum requires ALL layers; `l_uniq` is inapplicable
-                decay_prod = np.concatenate((np.ones((N, 1)), np.exp(log_decay_prod)), axis=1) # (N, NLayers + 1)
+                decay = np.exp(-scaled_thickness_arr[None, :] * M_inv[:, None])                # (N, NLayers)
 
                 if is_antiderivative_wrt_tau:
-                    # (N, NLayers)
-                    integration_factor = mu_arr_pos[:, None] / scale_tau
+                    # The integration is over `tau` in the layer of `tau`
+                    integration_factor = mu_arr_pos[:, None] / scale_tau[l][None, :]           # (N, Ntau)
 
                 # ====================================================================
                 # POS: pre-accumulate "contribution from below" sums Rpos[N, l, Nphi]
@@ -523,24 +519,21 @@ def pydisort(
                     thickness_pos = scaled_thickness_arr[None, :] * (M_inv + mu0_inv)[:, None]  # (N, NLayers); always > 0
                     # em1_pos = 1 - exp(-scaled_thickness_arr*(1/mu + 1/mu0)) = -expm1(-thickness_pos)
                     em1_pos = -np.expm1(-thickness_pos)                                         # (N, NLayers)
-                    if is_antiderivative_wrt_tau:
-                        em1_pos = integration_factor * em1_pos
-
                     layer_term_pos = em1_pos * exp_taufront_mu0_inv[None, :]                    # (N, NLayers)
 
-                    # Reverse-scan via cumsum:
-                    # Rpos[l] = (1/decay_prod[l+1]) * sum_{r=l+1..} (layer_term_pos[r] * decay_prod[r])
-                    weighted_layer_term_pos = layer_term_pos * decay_prod[:, :NLayers]          # (N, NLayers)
-                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers)
-
-                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers]                  # (N, NLayers - 1)
-                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1))], axis=1)                # (N, NLayers)
+                    # Reverse-scan, each layer with its own `mathscr_B`:
+                    # Rpos[l] = Bpos[l+1] * layer_term_pos[l+1] + decay[l+1] * Rpos[l+1]
+                    Rpos = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1, 0, -1):
+                        Rpos.append(Bpos[:, r, :] * layer_term_pos[:, r, None] + decay[:, r, None] * Rpos[-1])
+                    Rpos = np.stack(Rpos[::-1], axis=1)                                         # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     # expfac_pos = exp(M_inv*tau) * exp(-M_inv*scaled_tauwith0_back[l])
                     expfac_pos = np.exp(M_inv[:, None] * (scaled_tau - scaled_tauwith0_back[l])[None, :])  # (N, Ntau)
-                    tmp = np.take(Rpos, l, axis=1)                                                         # (N, Ntau)
-                    tmp = (tmp * expfac_pos)[:, :, None] * Bpos[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_pos = integration_factor * expfac_pos
+                    tmp = Rpos[:, l, :] * expfac_pos[:, :, None]                                           # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :] + tmp, solution[N:, :, :]), axis=0)
@@ -551,8 +544,6 @@ def pydisort(
                 # NEG: pre-accumulate "contribution from above" sums Rneg[N, l, Nphi]
                 # ====================================================================
                 if any_neg:
-                    decay = np.exp(log_decay)                                                    # (N, NLayers)
-                    
                     # Ensure no positive exponents
                     thickness_neg = scaled_thickness_arr[None, :] * (M_inv - mu0_inv)[:, None]   # (N, NLayers)
                     mask = (thickness_neg >= 0)
@@ -569,21 +560,18 @@ def pydisort(
                     layer_term_posthick = -em1_neg * exp_x1                                      # (N, NLayers)
                     layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)
 
-                    if is_antiderivative_wrt_tau:
-                        layer_term_neg = -integration_factor * layer_term_neg
-
-                    # Forward-scan via cumsum:
-                    # Rneg[l] = decay_prod[l] * sum_{r<l} layer_term_neg[r] / decay_prod[r+1]
-                    weighted_layer_term_neg = layer_term_neg / decay_prod[:, 1:]                 # (N, NLayers)
-                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers)
-                    
-                    Rneg_rest = decay_prod[:, 1 : NLayers] * cumsum_neg[:, :-1]                  # (N, NLayers - 1)
-                    Rneg = np.concatenate([np.zeros((N, 1)), Rneg_rest], axis=1)                 # (N, NLayers)
+                    # Forward-scan, each layer with its own `mathscr_B`:
+                    # Rneg[l] = Bneg[l-1] * layer_term_neg[l-1] + decay[l-1] * Rneg[l-1]
+                    Rneg = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1):
+                        Rneg.append(Bneg[:, r, :] * layer_term_neg[:, r, None] + decay[:, r, None] * Rneg[-1])
+                    Rneg = np.stack(Rneg, axis=1)                                                # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     expfac_neg = np.exp(M_inv[:, None] * (scaled_tauwith0_front[l] - scaled_tau)[None, :])  # (N, Ntau)
-                    tmp = np.take(Rneg, l, axis=1)                                                          # (N, Ntau)
-                    tmp = (tmp * expfac_neg)[:, :, None] * Bneg[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_neg = -integration_factor * expfac_neg
+                    tmp = Rneg[:, l, :] * expfac_neg[:, :, None]                                            # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :], solution[N:, :, :] + tmp), axis=0)
-- 
2.43.0


From 7fa6d7750f8f2f3e8f0760836b6fa75b491ec169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:34 +0000
Subject: [PATCH 17/26] fix: do not overwrite the caller's Legendre
 coefficients

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 0c86a82..5ecb016 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -183,7 +183,7 @@ def pydisort(
     # --------------------------------------------------------------------------------------------------------------------------
     tau_arr = np.atleast_1d(tau_arr)
     omega_arr = np.atleast_1d(omega_arr)
-    Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all)
+    Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all).copy()  # The zeroth coefficients may be corrected below
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
     f_arr = np.atleast_1d(f_arr)
     # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From bbc3ae0610f78a6d4a69ad20111a4841f951409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 18/26] fix: output functions must not share arrays with the
 caller

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/pydisort.py                       | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 6eb8c86..67a463d 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -280,7 +280,7 @@ def _assemble_intensity_and_fluxes(
                 output_is_tuple = True
                 
             if return_tau_arr:
-                outputs += (tau_arr,)
+                outputs += (tau_arr.copy(),)
                 output_is_tuple = True
             
             if _return_l: # This indicates to the function that NT corrections are activated
@@ -391,7 +391,7 @@ def _assemble_intensity_and_fluxes(
         outputs = (rescale_factor * np.squeeze(u0),)
         outputs_len = 1
         if return_tau_arr:
-            outputs += (tau_arr,)
+            outputs += (tau_arr.copy(),)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
             outputs += (rescale_factor * act_dscale_reclassification,)
@@ -485,7 +485,7 @@ def _assemble_intensity_and_fluxes(
         flux = 2 * pi * (mu_arr_pos * W) @ u0_pos
         
         if return_tau_arr:
-            return rescale_factor * np.squeeze(flux)[()], tau_arr
+            return rescale_factor * np.squeeze(flux)[()], tau_arr.copy()
         else:
             return rescale_factor * np.squeeze(flux)[()]
 
@@ -570,7 +570,7 @@ def _assemble_intensity_and_fluxes(
             return (
                 rescale_factor * np.squeeze(diffuse_flux)[()],
                 rescale_factor * np.squeeze(direct_beam)[()],
-                tau_arr
+                tau_arr.copy()
             )
         else:
             return (
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 5ecb016..1f75018 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -181,11 +181,11 @@ def pydisort(
     
     # Turn floats into arrays
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr)
+    tau_arr = np.atleast_1d(tau_arr).copy()  # The output functions keep this array
     omega_arr = np.atleast_1d(omega_arr)
     Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all).copy()  # The zeroth coefficients may be corrected below
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-    f_arr = np.atleast_1d(f_arr)
+    f_arr = np.atleast_1d(f_arr).copy()  # The output functions keep this array
     # --------------------------------------------------------------------------------------------------------------------------
     
     # Setup
@@ -683,7 +683,7 @@ def pydisort(
 
         # --------------------------------------------------------------------------------------------------------------------------
 
-        return mu_arr, flux_up, flux_down, u0, u_corrected
+        return mu_arr.copy(), flux_up, flux_down, u0, u_corrected
         
     else:
         return (mu_arr,) + _assemble_intensity_and_fluxes(
-- 
2.43.0


From 5b7d35fade9e0207c045796bb2dcd976facbf6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 19/26] fix: direct flux must have the size of tau when there
 is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 67a463d..dfaeca9 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -539,7 +539,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        direct_beam = 0
+        direct_beam = np.zeros(len(tau))
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-- 
2.43.0


From 7473bec1f6919770af870330ec94b409adac24d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:33 +0000
Subject: [PATCH 20/26] fix: interpolated intensity functions must not share an
 interpolator between calls

---
 src/PythonicDISORT/subroutines.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 71cacd8..23b18d0 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -638,9 +638,6 @@ def interpolate(u):
     N = len(u(0, 0)) // 2
     mu_arr_pos = Gauss_Legendre_quad(N)[0]
     
-    u_pos_interpol = sc.interpolate.BarycentricInterpolator(mu_arr_pos)
-    u_neg_interpol = sc.interpolate.BarycentricInterpolator(-mu_arr_pos)
-    
     argcount = u.__code__.co_argcount
     if argcount == 5: # Function is `u` instead of `u0`
         def u_interpol(mu, tau, phi, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False):
@@ -660,10 +657,10 @@ def interpolate(u):
             mask_else = ~mask_pos
             
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
+                u_pos_interpol = sc.interpolate.BarycentricInterpolator(mu_arr_pos, u_cache[:N])
                 results[mask_pos] = u_pos_interpol(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
+                u_neg_interpol = sc.interpolate.BarycentricInterpolator(-mu_arr_pos, u_cache[N:])
                 results[mask_else] = u_neg_interpol(mu[mask_else])
             
             if return_Fourier_error or return_tau_arr:
@@ -690,10 +687,10 @@ def interpolate(u):
             mask_else = ~mask_pos
             
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
+                u_pos_interpol = sc.interpolate.BarycentricInterpolator(mu_arr_pos, u_cache[:N])
                 results[mask_pos] = u_pos_interpol(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
+                u_neg_interpol = sc.interpolate.BarycentricInterpolator(-mu_arr_pos, u_cache[N:])
                 results[mask_else] = u_neg_interpol(mu[mask_else])
             
             if return_tau_arr:
-- 
2.43.0


From 65228135ac410b4e8f4b27609bbdc84a1ef26fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:12 +0000
Subject: [PATCH 21/26] fix: boundary sources whose largest value is zero must
 not be discarded

---
 src/PythonicDISORT/pydisort.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 1f75018..9b84c55 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -365,7 +365,8 @@ def pydisort(
         b_neg = (b_neg / rescale_factor).copy()
         scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()
     else:
-        rescale_factor = np.max((I0, np.max(b_pos), np.max(b_neg)))
+        # The modes of the boundary sources may be negative
+        rescale_factor = np.max((I0, np.max(np.abs(b_pos)), np.max(np.abs(b_neg))))
         if rescale_factor != 0:
             I0 = (I0 / rescale_factor).copy()
             b_pos = (b_pos / rescale_factor).copy()
-- 
2.43.0


From ba45589a7042cc35db3bb8cc7cfb2dad446e4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:40 +0000
Subject: [PATCH 22/26] fix: IMS correction must not truncate the peak
 fractions when the Legendre coefficients are integers

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 9b84c55..10ddc46 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -593,7 +593,7 @@ def pydisort(
         omega_avg = sum1 / np.sum(thickness_arr)
         sum2 = np.sum(f_arr * omega_arr * thickness_arr)
         f_avg = sum2 / sum1
-        Leg_coeffs_residue = Leg_coeffs_all.copy()
+        Leg_coeffs_residue = Leg_coeffs_all.astype(float)  # A copy that can hold `f_arr`, also if the input is of integer type
         Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T
         Leg_coeffs_residue_avg = (
             np.sum(Leg_coeffs_residue * omega_arr[:, None] * thickness_arr[:, None], axis=0)
-- 
2.43.0


From 0984014da5640f497840ba2715b09148312a6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 23/26] fix: beam that decays like an eigensolution of a layer

The particular solution w.r.t. the direct beam source is singular when 1 / mu0
is an eigenvalue, and next to it roundoff destroyed the result. Keep the
eigenvalue and 1 / mu0 a relative distance of 1e-8 apart.
---
 src/PythonicDISORT/_solve_for_gen_and_part_sols.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
index d85f3ec..075461e 100644
--- a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
+++ b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
@@ -184,6 +184,10 @@ def _solve_for_gen_and_part_sols(
         
         # Eigenvalues arranged negative then positive, from largest to smallest magnitude
         K_arr_pos = np.sqrt(K_squared_arr)
+        if there_is_beam_source:
+            # The particular solution w.r.t. direct beam source is singular if an eigenvalue equals `1 / mu0`, so keep them apart
+            is_resonant = np.abs(K_arr_pos * mu0 - 1) < 1e-8
+            K_arr_pos[is_resonant] = (1 + 1e-8) / mu0
         K_arr = np.concatenate((-K_arr_pos, K_arr_pos), axis=1)
         
         # Build eigenvector matrix from four blocks
@@ -226,6 +230,10 @@ def _solve_for_gen_and_part_sols(
                 A_arr = A_arr[len_no_shortcut_indices_0:]
                 A_arr[:, :N, N:] = -A_arr[:, N:, :N]
                 A_arr[:, :N, :N] = -A_arr[:, N:, N:]
+                # Use the adjusted eigenvalues wherever an eigenvalue is too close to `1 / mu0`
+                for i in np.flatnonzero(np.any(is_resonant[len_no_shortcut_indices_0:], axis=1)):
+                    G = G_collect[no_shortcut_indices[i]]
+                    A_arr[i] = (G * K_collect[no_shortcut_indices[i]][None, :]) @ np.linalg.inv(G)
                 A_arr.reshape(-1, NQuad * NQuad)[:, ::NQuad + 1] += 1 / mu0
                 # Note that the minus sign has been absorbed into `X_arr`
                 B_collect[no_shortcut_indices, :] = np.linalg.solve(A_arr, X_arr[no_shortcut_indices, :, None]).squeeze(-1)
-- 
2.43.0


From 59050dc3f4e62a182b99706aa4b326f346e50a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 24/26] fix: secondary correction where the scaled beam meets a
 quadrature angle

The closed form divides by the square of 1 / mu - 1 / scaled_mu0: it gave NaN
where the difference is zero and lost all digits next to it. Use its Taylor
series there.
---
 src/PythonicDISORT/pydisort.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 10ddc46..83d3a66 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -5,7 +5,7 @@ import warnings
 
 import numpy as np
 import scipy as sc
-from math import pi
+from math import pi, factorial
 from numpy.polynomial.legendre import Legendre
 from scipy import integrate
     
@@ -604,17 +604,26 @@ def pydisort(
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
             nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape(N, len(phi))
             x = 1 / mu_arr_pos - 1 / scaled_mu0
+            exp_scaled_mu0 = np.exp(-tau / scaled_mu0)[None, :]
+            # psi = (exp(-tau / mu) + (x * tau - 1) * exp(-tau / scaled_mu0)) / x**2 
+            # which is continuous at x = 0; its Taylor series is used there as the closed form cancels
+            x_tau = x[:, None] * tau[None, :]
+            is_small = np.abs(x_tau) < 0.1
+            series = 1 / 39916800
+            for k in range(10, 1, -1):
+                series = 1 / factorial(k) - np.where(is_small, x_tau, 0) * series
+            psi = np.where(
+                is_small,
+                tau[None, :] ** 2 * exp_scaled_mu0 * series,
+                (
+                    np.exp(-tau[None, :] / mu_arr_pos[:, None])
+                    + (x_tau - 1) * exp_scaled_mu0
+                ) / np.where(x == 0, 1, x)[:, None] ** 2,
+            )
             if is_antiderivative_wrt_tau:
-                chi = (
-                    (scaled_mu0 - x[:, None] * scaled_mu0 * (scaled_mu0 + tau)[None, :])
-                    * np.exp(-tau / scaled_mu0)[None, :]
-                    - mu_arr_pos[:, None] * np.exp(-tau[None, :] / mu_arr_pos[:, None])
-                ) / (mu_arr_pos * scaled_mu0 * x**2)[:, None]
+                chi = -(scaled_mu0 + tau)[None, :] * exp_scaled_mu0 - psi / scaled_mu0
             else:
-                chi = (
-                    (tau[None, :] - 1 / x[:, None]) * np.exp(-tau / scaled_mu0)[None, :]
-                    + np.exp(-tau[None, :] / mu_arr_pos[:, None]) / x[:, None]
-                ) / (mu_arr_pos * scaled_mu0 * x)[:, None]
+                chi = psi / (mu_arr_pos * scaled_mu0)[:, None]
                 
             return (
                 I0_div_4pi
-- 
2.43.0


From 8f21718345fc13f31a13d3080d4e121e292e6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:34 +0000
Subject: [PATCH 25/26] fix: Planck function at zero wavenumber

It was NaN there, also for band integrals whose rule uses the ends of the
band, and lost accuracy at very small wavenumbers.
---
 src/PythonicDISORT/subroutines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 23b18d0..3f8ab47 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -344,8 +344,10 @@ def Planck(T, WVNM):
         results[~not_zeros_ind] = 0
         
         # Coded in this way to prevent overflow
-        expterm = np.exp(-100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind]))
-        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * expterm) / (1 - expterm)
+        exponent = -100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind])
+        expterm = np.exp(exponent)
+        # The limit at zero wavenumber is zero
+        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * expterm) / np.where(exponent == 0, 1, -np.expm1(exponent))
         
     return np.squeeze(results)[()]
     
-- 
2.43.0


From 16b4b27950d5233e71c1607e381fe5fd376225f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:40 +0000
Subject: [PATCH 26/26] fix: associated Legendre functions of high order
 overflowed (NQuad of about 96 and more)

---
 .../_solve_for_gen_and_part_sols.py           | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
index 075461e..8a7fccb 100644
--- a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
+++ b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
@@ -2,6 +2,25 @@ import numpy as np
 import scipy as sc
 
 
+def _normalized_asso_leg(m, NLeg, mu):
+    """
+    Evaluates the associated Legendre functions of order `m` and degrees `m, ..., NLeg - 1` at each `mu`,
+    multiplied by the square root of `(l - m)! / (l + m)!`. The factorials and the unnormalized functions
+    respectively underflow and overflow for large `m` but the normalized functions are bounded by one.
+    
+    """
+    out = np.zeros((NLeg - m, len(mu)))
+    k = np.arange(1, m + 1)
+    out[0] = (-1) ** m * np.prod(np.sqrt((2 * k - 1) / (2 * k))) * np.sqrt(1 - mu**2) ** m
+    if NLeg - m > 1:
+        out[1] = np.sqrt(2 * m + 1) * mu * out[0]
+    for l in range(m + 2, NLeg):
+        out[l - m] = (
+            (2 * l - 1) * mu * out[l - m - 1] - np.sqrt((l - 1) ** 2 - m**2) * out[l - m - 2]
+        ) / np.sqrt(l**2 - m**2)
+    return out
+
+
 def _solve_for_gen_and_part_sols(
     NFourier,                    # Number of intensity Fourier modes
     scaled_omega_arr,            # Delta-scaled single-scattering albedos
@@ -44,7 +63,6 @@ def _solve_for_gen_and_part_sols(
     Notable internal variables of _solve_for_gen_and_part_sols
     |       Variable      |             Type / Shape               |
     | ------------------- | -------------------------------------- |
-    | `ells_all`          | `NLeg`                                 |
     | `G_collect`         | `NFourier*NLayers x NQuad x NQuad`     | Reshaped to NFourier x NLayers x NQuad x NQuad
     | `K_collect`         | `NFourier*NLayers x NQuad`             | Reshaped to NFourier x NLayers x NQuad
     | `alpha_arr`         | `NFourier*NLayers x NQuad/2 x NQuad/2` | Reshaped to NFourier x NLayers x NQuad/2 x NQuad/2
@@ -60,7 +78,6 @@ def _solve_for_gen_and_part_sols(
     
     # Initialization
     # --------------------------------------------------------------------------------------------------------------------------
-    ells_all = np.arange(NLeg)
     signs_all = np.ones(NLeg)
     signs_all[1::2] = -1
     
@@ -92,21 +109,17 @@ def _solve_for_gen_and_part_sols(
         # Setup
         # --------------------------------------------------------------------------------------------------------------------------
         m_equals_0 = (m == 0)
-        ells = ells_all[m:]
-        poch = sc.special.poch(ells + m + 1, -2 * m)
         signs = signs_all[:NLeg - m]
         
         if there_is_beam_source:
-            degree_tile = np.broadcast_to(ells[:, None], (NLeg - m, N + 1))
-            lpmv_all = sc.special.lpmv(m, degree_tile, mu_arr_pos_mu0)
-            asso_leg_term_pos = lpmv_all[:, :-1]
-            scalar_fac_asso_leg_term_mu0 = I0_div_4pi * (2 - m_equals_0) * poch * lpmv_all[:, -1]
+            asso_leg_all = _normalized_asso_leg(m, NLeg, mu_arr_pos_mu0)
+            asso_leg_term_pos = asso_leg_all[:, :-1]
+            scalar_fac_asso_leg_term_mu0 = I0_div_4pi * (2 - m_equals_0) * asso_leg_all[:, -1]
         else:
-            degree_tile = np.broadcast_to(ells[:, None], (NLeg - m, N))
-            asso_leg_term_pos = sc.special.lpmv(m, degree_tile, mu_arr_pos)
+            asso_leg_term_pos = _normalized_asso_leg(m, NLeg, mu_arr_pos)
             
         asso_leg_term_neg = asso_leg_term_pos * signs[:, None]
-        fac_asso_leg_term_posT = poch[None, :] * asso_leg_term_pos.T
+        fac_asso_leg_term_posT = asso_leg_term_pos.T
         # --------------------------------------------------------------------------------------------------------------------------
 
         # Loop over NLayers atmospheric layers
-- 
2.43.0

