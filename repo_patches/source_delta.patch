From 344696439eb4d2f9e0a00e92ec47b3b5c73cc51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 01/22] fix: u0 antiderivative was the function itself when
 there is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a2c0d60..e3a0ce2 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -379,7 +379,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        if is_antiderivative_wrt_tau and there_is_beam_source:
+        if is_antiderivative_wrt_tau:
             if there_is_beam_source:
                 direct_beam_contribution = (B_collect_0.T / (-scale_tau / mu0)[None, :])[
                     :, l
-- 
2.43.0


From ac8edd1953c546a60b5672decc45f9c9ecd074ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 02/22] fix: flux_down antiderivative applied the layer index
 twice

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index e3a0ce2..7418fe5 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -577,9 +577,9 @@ def _assemble_intensity_and_fluxes(
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, l])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                 direct_beam = I0 * mu0 * np.exp(-tau / mu0) * -mu0
-                direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[None, l]
+                direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[l]
             
             u0_neg = (
                 np.einsum("tij, tj -> it", GC_neg[l, :, :], np.exp(exponent) / (scale_tau[:, None] * K_collect_0)[l, :])
-- 
2.43.0


From 31ca85bafa721b64ea6b1c96f8ad3d0ca19f5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 03/22] fix: antiderivative of the isotropic-source particular
 solution used every layer's delta-scale factor instead of the factor of each
 tau's layer

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/subroutines.py                    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 7418fe5..525a229 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -236,7 +236,7 @@ def _assemble_intensity_and_fluxes(
             if there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
                 _mathscr_v_contribution = _mathscr_v(
-                    scaled_tau, scale_tau, l_inv, 
+                    scaled_tau, scale_tau[l], l_inv, 
                     Nscoeffs,
                     scaled_s_poly_coeffs[l_uniq],
                     G_collect_0[l_uniq],
@@ -411,7 +411,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq],
@@ -470,7 +470,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, :N, :],
@@ -552,7 +552,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, N:, :],
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 19d239c..f6d8f76 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -744,7 +744,7 @@ def to_diag_ordered_form(A, Nsuperdiags, Nsubdiags):
 
     
 def _mathscr_v(tau,                             # Input optical depths
-               scale_tau,                       # Delta-scale factor for tau
+               scale_tau,                       # Delta-scale factor for tau, for each input optical depth
                l,                               # Layer index of each input optical depth
                Nscoeffs,                        # Number of isotropic source polynomial coefficients
                s_poly_coeffs,                   # Polynomial coefficients of isotropic source
@@ -764,7 +764,7 @@ def _mathscr_v(tau,                             # Input optical depths
     |          Variable             |                   Shape                   |
     | ----------------------------- | ----------------------------------------- |
     | ``tau``                       | ``Ntau``                                  |
-    | ``scale_tau``                 | `NLayers`                                 |
+    | ``scale_tau``                 | ``Ntau``                                  |
     | ``l``                         | ``Ntau``                                  |
     | ``Nscoeffs``                  | scalar                                    |
     | ``s_poly_coeffs``             | ``NL x Nscoeffs``                         |
@@ -855,7 +855,7 @@ def _mathscr_v(tau,                             # Input optical depths
         powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
         if is_antiderivative_wrt_tau:
             p = powers + 1
-            tau_poly = (tau[:, None] ** p) / (p * scale_tau)
+            tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])
         else:
             tau_poly = tau[:, None] ** powers
 
-- 
2.43.0


From baffedea4a26653979528712b72e668b5357c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 04/22] fix: Fourier error used the wrong axes of the beam
 particular solution

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 525a229..00a5fd3 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -275,7 +275,7 @@ def _assemble_intensity_and_fluxes(
                 if is_antiderivative_wrt_tau:
                     if there_is_beam_source:
                         direct_beam_contribution = (
-                            B_collect.T[-1, :, :] / (-scale_tau / mu0)[None, :]
+                            B_collect[-1, :, :].T / (-scale_tau / mu0)[None, :]
                         )[:, l] * np.exp(-scaled_tau / mu0)[None, :]
 
                     ulast = (
@@ -290,7 +290,7 @@ def _assemble_intensity_and_fluxes(
                 else:
                     if there_is_beam_source:
                         direct_beam_contribution = (
-                            B_collect.T[-1, :, l] * np.exp(-scaled_tau / mu0)[None, :]
+                            B_collect[-1, :, :].T[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                         )
 
                     ulast = (
@@ -300,6 +300,9 @@ def _assemble_intensity_and_fluxes(
                         + direct_beam_contribution
                     )
         
+                if there_is_iso_source and NFourier == 1:
+                    ulast = ulast + _mathscr_v_contribution
+
                 u_abs = np.abs(u)
                 Fourier_error = np.max(
                     np.divide(
-- 
2.43.0


From bba19ec990ba923aa81d42b34aefcdd6c26ad752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 05/22] fix: boundary-condition matrices were mistaken for
 vectors or scalars

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 897550f..ebf2dd1 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -271,15 +271,15 @@ def pydisort(
         if not (0 <= phi0 and phi0 < 2 * pi):
             raise ValueError("Provide the principal azimuthal angle for the incident beam (must be between 0 and 2pi, excluding 2pi).")
     # Ensure that the BC inputs are of the correct shape
-    if len(np.atleast_1d(b_pos)) == 1:
+    if np.size(b_pos) == 1:
         b_pos_is_scalar = True
-    elif len(b_pos) == N:
+    elif np.shape(b_pos) == (N,):
         b_pos_is_vector = True
     elif not np.shape(b_pos) == (N, NFourier):
         raise ValueError("The shape of the bottom boundary condition is incorrect.")
-    if len(np.atleast_1d(b_neg)) == 1:
+    if np.size(b_neg) == 1:
         b_neg_is_scalar = True
-    elif len(b_neg) == N:
+    elif np.shape(b_neg) == (N,):
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-- 
2.43.0


From fc8707e5a16a755014bc01f2a7d18eb93ff2126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 06/22] fix: correcting the zeroth Legendre coefficient
 overwrote the caller's array

---
 src/PythonicDISORT/pydisort.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index ebf2dd1..d9b83fd 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -245,6 +245,7 @@ def pydisort(
     # Value checks on the phase function Legendre coefficients
     if not np.all(omega_arr * Leg_coeffs_all[:, 0] == omega_arr):
         warnings.warn("The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.")
+        Leg_coeffs_all = Leg_coeffs_all.copy()
         Leg_coeffs_all[:, 0] = 1
     if not (np.all(-1 < Leg_coeffs_all[:, 1:]) and np.all(Leg_coeffs_all[:, 1:] < 1)):
         raise ValueError("The phase function Legendre coefficients must all be between -1 and 1 exclusive (only the zeroth coefficient can equal 1).")
-- 
2.43.0


From 02ce9b4c3d38cf90d707f264b0b9f7b6670d1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 07/22] fix: output functions shared mutable arrays with the
 caller

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/pydisort.py                       | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 00a5fd3..f668876 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -319,7 +319,7 @@ def _assemble_intensity_and_fluxes(
                 output_is_tuple = True
                 
             if return_tau_arr:
-                outputs += (tau_arr,)
+                outputs += (tau_arr.copy(),)
                 output_is_tuple = True
             
             if _return_l: # This indicates to the function that NT corrections are activated
@@ -428,7 +428,7 @@ def _assemble_intensity_and_fluxes(
         outputs = (rescale_factor * np.squeeze(u0),)
         outputs_len = 1
         if return_tau_arr:
-            outputs += (tau_arr,)
+            outputs += (tau_arr.copy(),)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
             outputs += (act_dscale_reclassification,)
@@ -522,7 +522,7 @@ def _assemble_intensity_and_fluxes(
         flux = 2 * pi * (mu_arr_pos * W) @ u0_pos
         
         if return_tau_arr:
-            return rescale_factor * np.squeeze(flux)[()], tau_arr
+            return rescale_factor * np.squeeze(flux)[()], tau_arr.copy()
         else:
             return rescale_factor * np.squeeze(flux)[()]
 
@@ -607,7 +607,7 @@ def _assemble_intensity_and_fluxes(
             return (
                 rescale_factor * np.squeeze(diffuse_flux)[()],
                 rescale_factor * np.squeeze(direct_beam)[()],
-                tau_arr
+                tau_arr.copy()
             )
         else:
             return (
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index d9b83fd..eab0bcd 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -181,11 +181,12 @@ def pydisort(
     
     # Turn floats into arrays
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr)
+    # Copy the inputs which the output functions will refer to
+    tau_arr = np.atleast_1d(tau_arr).copy()
     omega_arr = np.atleast_1d(omega_arr)
     Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all)
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-    f_arr = np.atleast_1d(f_arr)
+    f_arr = np.atleast_1d(f_arr).copy()
     # --------------------------------------------------------------------------------------------------------------------------
     
     # Setup
@@ -696,7 +697,7 @@ def pydisort(
 
         # --------------------------------------------------------------------------------------------------------------------------
 
-        return mu_arr, flux_up, flux_down, u0, u_corrected
+        return mu_arr.copy(), flux_up, flux_down, u0, u_corrected
         
     else:
         return (mu_arr,) + _assemble_intensity_and_fluxes(
-- 
2.43.0


From d1bdeef3aebcd59a73e5528897dec5162ba45206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 08/22] fix: delta-scale reclassification of the actinic flux
 ignored the source rescaling

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index f668876..85a7d78 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -368,6 +368,7 @@ def _assemble_intensity_and_fluxes(
                     )
                 else:
                     act_dscale_reclassification = I0 * np.exp(-scaled_tau / mu0) - I0 * np.exp(-tau / mu0)
+                act_dscale_reclassification = rescale_factor * act_dscale_reclassification
         else:
             scaled_tau = tau
             if _return_act_dscale_for_reclass:
-- 
2.43.0


From d64980cccf8d40fa90b809336229f802fa4fa24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 09/22] fix: direct flux did not have the size of tau when
 there is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 85a7d78..a3d51be 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -577,7 +577,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        direct_beam = 0
+        direct_beam = np.zeros(len(tau))
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-- 
2.43.0


From 99b0cc4f90aae8c91f1f57f59b90754c94daad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 10/22] fix: TMS correction weighted the other layers'
 contributions with the local layer's phase function and delta-scale factor

---
 src/PythonicDISORT/pydisort.py | 52 ++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index eab0bcd..c9114b1 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -411,8 +411,10 @@ def pydisort(
         def TMS_correction(tau, phi, is_antiderivative_wrt_tau, l, l_uniq, l_inv):
             Ntau = len(tau)
             Nphi = len(phi)
-            # Atmospheric layer indices
-            if not there_is_iso_source:
+            # Every layer contributes to the solution in every other layer, so all are needed
+            if is_atmos_multilayered:
+                l_uniq, l_inv = np.arange(NLayers), l
+            elif not there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
             scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
             scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]
@@ -502,8 +504,8 @@ def pydisort(
                 )  # (Nlayers, )
 
 
-                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers_uniq, Nphi)
-                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers_uniq, Nphi)
+                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers, Nphi)
+                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers, Nphi)
 
                 # decay[n,r] = exp(-scaled_thickness_arr[r]/mu[n]); always <= 1
                 log_decay = -scaled_thickness_arr[None, :] * M_inv[:, None]                    # (N, NLayers)
@@ -513,8 +515,8 @@ def pydisort(
                 decay_prod = np.concatenate((np.ones((N, 1)), np.exp(log_decay_prod)), axis=1) # (N, NLayers + 1)
 
                 if is_antiderivative_wrt_tau:
-                    # (N, NLayers)
-                    integration_factor = mu_arr_pos[:, None] / scale_tau
+                    # (N, Ntau)
+                    integration_factor = mu_arr_pos[:, None] / scale_tau[l]
 
                 # ====================================================================
                 # POS: pre-accumulate "contribution from below" sums Rpos[N, l, Nphi]
@@ -523,24 +525,25 @@ def pydisort(
                     thickness_pos = scaled_thickness_arr[None, :] * (M_inv + mu0_inv)[:, None]  # (N, NLayers); always > 0
                     # em1_pos = 1 - exp(-scaled_thickness_arr*(1/mu + 1/mu0)) = -expm1(-thickness_pos)
                     em1_pos = -np.expm1(-thickness_pos)                                         # (N, NLayers)
-                    if is_antiderivative_wrt_tau:
-                        em1_pos = integration_factor * em1_pos
-
                     layer_term_pos = em1_pos * exp_taufront_mu0_inv[None, :]                    # (N, NLayers)
 
                     # Reverse-scan via cumsum:
                     # Rpos[l] = (1/decay_prod[l+1]) * sum_{r=l+1..} (layer_term_pos[r] * decay_prod[r])
-                    weighted_layer_term_pos = layer_term_pos * decay_prod[:, :NLayers]          # (N, NLayers)
-                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers)
+                    weighted_layer_term_pos = (
+                        layer_term_pos * decay_prod[:, :NLayers]
+                    )[:, :, None] * Bpos                                                        # (N, NLayers, Nphi)
+                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers, Nphi)
 
-                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers]                  # (N, NLayers - 1)
-                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1))], axis=1)                # (N, NLayers)
+                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers, None]            # (N, NLayers - 1, Nphi)
+                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1, Nphi))], axis=1)          # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     # expfac_pos = exp(M_inv*tau) * exp(-M_inv*scaled_tauwith0_back[l])
                     expfac_pos = np.exp(M_inv[:, None] * (scaled_tau - scaled_tauwith0_back[l])[None, :])  # (N, Ntau)
-                    tmp = np.take(Rpos, l, axis=1)                                                         # (N, Ntau)
-                    tmp = (tmp * expfac_pos)[:, :, None] * Bpos[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_pos = integration_factor * expfac_pos
+                    tmp = np.take(Rpos, l, axis=1)                                                         # (N, Ntau, Nphi)
+                    tmp = tmp * expfac_pos[:, :, None]
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :] + tmp, solution[N:, :, :]), axis=0)
@@ -569,21 +572,22 @@ def pydisort(
                     layer_term_posthick = -em1_neg * exp_x1                                      # (N, NLayers)
                     layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)
 
-                    if is_antiderivative_wrt_tau:
-                        layer_term_neg = -integration_factor * layer_term_neg
-
                     # Forward-scan via cumsum:
                     # Rneg[l] = decay_prod[l] * sum_{r<l} layer_term_neg[r] / decay_prod[r+1]
-                    weighted_layer_term_neg = layer_term_neg / decay_prod[:, 1:]                 # (N, NLayers)
-                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers)
+                    weighted_layer_term_neg = (
+                        layer_term_neg / decay_prod[:, 1:]
+                    )[:, :, None] * Bneg                                                         # (N, NLayers, Nphi)
+                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers, Nphi)
                     
-                    Rneg_rest = decay_prod[:, 1 : NLayers] * cumsum_neg[:, :-1]                  # (N, NLayers - 1)
-                    Rneg = np.concatenate([np.zeros((N, 1)), Rneg_rest], axis=1)                 # (N, NLayers)
+                    Rneg_rest = decay_prod[:, 1 : NLayers, None] * cumsum_neg[:, :-1]            # (N, NLayers - 1, Nphi)
+                    Rneg = np.concatenate([np.zeros((N, 1, Nphi)), Rneg_rest], axis=1)           # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     expfac_neg = np.exp(M_inv[:, None] * (scaled_tauwith0_front[l] - scaled_tau)[None, :])  # (N, Ntau)
-                    tmp = np.take(Rneg, l, axis=1)                                                          # (N, Ntau)
-                    tmp = (tmp * expfac_neg)[:, :, None] * Bneg[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_neg = -integration_factor * expfac_neg
+                    tmp = np.take(Rneg, l, axis=1)                                                          # (N, Ntau, Nphi)
+                    tmp = tmp * expfac_neg[:, :, None]
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :], solution[N:, :, :] + tmp), axis=0)
-- 
2.43.0


From 8565e9a7a077eb66a257eb3319ae9a12f7028e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 11/22] fix: IMS correction confused the mu and phi axes when
 there are two streams

---
 src/PythonicDISORT/pydisort.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index c9114b1..1bf83b3 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -617,9 +617,7 @@ def pydisort(
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0)
-            )
+            nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape(N, len(phi))
             x = 1 / mu_arr_pos - 1 / scaled_mu0
             if is_antiderivative_wrt_tau:
                 chi = (
-- 
2.43.0


From 18e395abd2d8aed8ff1f555110fe57127ce979a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 12/22] fix: NT corrections were undefined when only
 non-scattering layers are delta-scaled

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 1bf83b3..2cdb2e4 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -374,7 +374,7 @@ def pydisort(
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
     
-    if NT_cor and not only_flux and there_is_beam_source and np.any(f_arr > 0) and NLeg < NLeg_all and np.any(omega_arr > 0):
+    if NT_cor and not only_flux and there_is_beam_source and NLeg < NLeg_all and np.any(f_arr * omega_arr > 0):
         
         ############################### Perform NT corrections on the intensity but not the flux ###############################
         ############################### Refer to section 3.7.2 of the Comprehensive Documentation ##############################
-- 
2.43.0


From c4477acba413956fd178f94bd0affcc1a7849023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 13/22] fix: interpolated u0 passed its flags to the wrong
 arguments of u0

---
 src/PythonicDISORT/subroutines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index f6d8f76..810775b 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -678,8 +678,10 @@ def interpolate(u):
             
             mu = np.atleast_1d(mu)
 
-            if return_Fourier_error or return_tau_arr:
-                u_outputs = u(tau, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)
+            if return_Fourier_error:
+                raise ValueError("u0 is a single Fourier mode and has no Fourier error.")
+            if return_tau_arr:
+                u_outputs = u(tau, is_antiderivative_wrt_tau, return_tau_arr)
                 u_cache = u_outputs[0]
             else:
                 u_cache = u(tau, is_antiderivative_wrt_tau)
-- 
2.43.0


From 6e5c38c4ebd9667991c9d98062b30b378464d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 14/22] fix: cached BDRF modes failed for scalar modes with a
 beam, for two streams, and followed later changes of the caller's list

---
 src/PythonicDISORT/_solve_for_coeffs.py | 4 ++--
 src/PythonicDISORT/subroutines.py       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index 5290d3a..94426ff 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -129,9 +129,9 @@ def _solve_for_coeffs(
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
-                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m(
+                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.atleast_2d(BDRF_Fourier_modes_m(
                         mu_arr_pos, np.array([mu0])
-                    )[:, 0]
+                    ))[:, 0]
                     
         # --------------------------------------------------------------------------------------------------------------------------
     
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 810775b..3a0b7cd 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -518,6 +518,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
         mu0_caching = False
         warnings.warn("No caching with respect to `mu0`.")
     
+    BDRF_Fourier_modes = list(BDRF_Fourier_modes)
     NBDRF = len(BDRF_Fourier_modes)
     mu_arr_pos = Gauss_Legendre_quad(N)[0]
     
@@ -537,7 +538,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
-                    if len(neg_mup) == 1
+                    if len(neg_mup) == 1 and (N > 1 or neg_mup[0] != mu_arr_pos[0])
                     else BDRF_Fourier_modes_evaluated[m][:, :-1]
                 )
             )
-- 
2.43.0


From 6f3cac36438c3658fa8bd771bbb320a67596e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 15/22] fix: zero scale factors of affine_transform_poly_coeffs
 were only rejected when all are zero

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 3a0b7cd..60d690a 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -592,7 +592,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
         Array with columns [D_0, D_1, ..., D_n]. 
         The rows correspond to different affine transformations.
     """
-    if np.any(a_arr) == 0:
+    if np.any(a_arr == 0):
         raise ValueError("The scale factors must be non-zero.") 
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
-- 
2.43.0


From 3982c288fc2a16c09869bd99909e691cf3dae5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 16/22] fix: internal sources that vanish at both ends of the
 atmosphere gave NaN

---
 src/PythonicDISORT/pydisort.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 2cdb2e4..cf1dd43 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -360,6 +360,8 @@ def pydisort(
                 scaled_s_poly_coeffs[-1, :] @ (scaled_tau_arr_with_0[-1] ** np.arange(Nscoeffs))
             )
         )
+        if rescale_factor == 0: # The source is zero at both ends of the atmosphere
+            rescale_factor = np.max(np.abs(scaled_s_poly_coeffs))
         I0 = (I0 / rescale_factor).copy()
         b_pos = (b_pos / rescale_factor).copy()
         b_neg = (b_neg / rescale_factor).copy()
-- 
2.43.0


From eb7b8ae36a9a83368430dcb11271e95ab68546e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 17/22] fix: a fractional scattering of 1 and a NaN beam
 intensity were accepted

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index cf1dd43..0374e57 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -265,7 +265,7 @@ def pydisort(
     if not NLeg <= NQuad:
         raise ValueError("There should be more streams than the number of phase function Legendre coefficients used.")
     # We require principal angles and a downward incident beam
-    if I0 < 0:
+    if not I0 >= 0:
         raise ValueError("The intensity of the incident beam cannot be negative.")
     if there_is_beam_source:
         if not (0 < mu0 and mu0 <= 1):
@@ -285,9 +285,9 @@ def pydisort(
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-    # The fractional scattering must be between 0 and 1
-    if not (np.all(0 <= f_arr) and np.all(f_arr <= 1)):
-        raise ValueError("The fractional scattering must be between 0 and 1.")
+    # The fractional scattering must be between 0 and 1, excluding 1
+    if not (np.all(0 <= f_arr) and np.all(f_arr < 1)):
+        raise ValueError("The fractional scattering must be between 0 and 1, excluding 1.")
     # The minimum threshold is 3 else the matrix will not be banded
     if not use_banded_solver_NLayers >= 3:
         raise ValueError("The minimum threshold `use_banded_solver_NLayers` is 3, else the matrix will not be banded.")
-- 
2.43.0


From 0b33f7865035495a9e6ae5081909b456fdc5c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:03 +0000
Subject: [PATCH 18/22] fix: concurrent calls of an interpolated intensity
 function corrupted each other

---
 src/PythonicDISORT/subroutines.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 60d690a..f95d4b2 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -1,5 +1,6 @@
 import numpy as np
 import scipy as sc
+from copy import copy
 from math import pi
 import warnings
 
@@ -661,11 +662,13 @@ def interpolate(u):
             mask_else = ~mask_pos
             
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
-                results[mask_pos] = u_pos_interpol(mu[mask_pos])
+                interpol = copy(u_pos_interpol) # Calls must not share the values being interpolated
+                interpol.set_yi(u_cache[:N])
+                results[mask_pos] = interpol(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
-                results[mask_else] = u_neg_interpol(mu[mask_else])
+                interpol = copy(u_neg_interpol) # Calls must not share the values being interpolated
+                interpol.set_yi(u_cache[N:])
+                results[mask_else] = interpol(mu[mask_else])
             
             if return_Fourier_error or return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
@@ -692,11 +695,13 @@ def interpolate(u):
             mask_else = ~mask_pos
             
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
-                results[mask_pos] = u_pos_interpol(mu[mask_pos])
+                interpol = copy(u_pos_interpol) # Calls must not share the values being interpolated
+                interpol.set_yi(u_cache[:N])
+                results[mask_pos] = interpol(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
-                results[mask_else] = u_neg_interpol(mu[mask_else])
+                interpol = copy(u_neg_interpol) # Calls must not share the values being interpolated
+                interpol.set_yi(u_cache[N:])
+                results[mask_else] = interpol(mu[mask_else])
             
             if return_Fourier_error or return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
-- 
2.43.0


From b521476c362a21f59668822c1e71691b889035d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:18 +0000
Subject: [PATCH 19/22] fix: antiderivatives jumped at the layer interfaces, so
 their differences across layers were not integrals

---
 .../_assemble_intensity_and_fluxes.py         | 28 +++++++++++++--
 src/PythonicDISORT/pydisort.py                |  6 ++++
 src/PythonicDISORT/subroutines.py             | 36 +++++++++++++++++++
 3 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a3d51be..9621c63 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -1,4 +1,4 @@
-from PythonicDISORT.subroutines import _mathscr_v
+from PythonicDISORT.subroutines import _mathscr_v, _append_interfaces, _join_layers
 from PythonicDISORT._solve_for_gen_and_part_sols import _solve_for_gen_and_part_sols
 from PythonicDISORT._solve_for_coeffs import _solve_for_coeffs
 
@@ -183,6 +183,8 @@ def _assemble_intensity_and_fluxes(
             
             # Atmospheric layer indices
             l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
+            if is_antiderivative_wrt_tau:
+                tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)
             scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
             scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]
 
@@ -252,6 +254,9 @@ def _assemble_intensity_and_fluxes(
                     um = np.concatenate((um[[0], :, :] + _mathscr_v_contribution, um[1:, :, :]), axis=0)
                 else:
                     um[0, :, :] += _mathscr_v_contribution
+
+            if is_antiderivative_wrt_tau:
+                um = _join_layers(um, l, NLayers, autograd_compatible)
                 
             u = np.sum(
                 um[:, :, :, None]
@@ -302,6 +307,8 @@ def _assemble_intensity_and_fluxes(
         
                 if there_is_iso_source and NFourier == 1:
                     ulast = ulast + _mathscr_v_contribution
+                if is_antiderivative_wrt_tau:
+                    ulast = _join_layers(ulast, l, NLayers, autograd_compatible)
 
                 u_abs = np.abs(u)
                 Fourier_error = np.max(
@@ -324,7 +331,7 @@ def _assemble_intensity_and_fluxes(
             
             if _return_l: # This indicates to the function that NT corrections are activated
                 output_is_tuple = True
-                outputs += (l,)
+                outputs += (l[: um.shape[-1]],)
                 if there_is_iso_source:
                     # The TMS correction will use these
                     outputs += (l_uniq, l_inv)
@@ -350,6 +357,8 @@ def _assemble_intensity_and_fluxes(
         
         # Atmospheric layer indices
         l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
+        if is_antiderivative_wrt_tau:
+            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)
         scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
         scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]
 
@@ -366,6 +375,9 @@ def _assemble_intensity_and_fluxes(
                         I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l] / mu0)
                         - I0 * np.exp(-tau / mu0) * -mu0
                     )
+                    act_dscale_reclassification = _join_layers(
+                        act_dscale_reclassification, l, NLayers, autograd_compatible
+                    )
                 else:
                     act_dscale_reclassification = I0 * np.exp(-scaled_tau / mu0) - I0 * np.exp(-tau / mu0)
                 act_dscale_reclassification = rescale_factor * act_dscale_reclassification
@@ -425,6 +437,9 @@ def _assemble_intensity_and_fluxes(
                 autograd_compatible,
             )
             u0 = u0 + _mathscr_v_contribution
+
+        if is_antiderivative_wrt_tau:
+            u0 = _join_layers(u0, l, NLayers, autograd_compatible)
             
         outputs = (rescale_factor * np.squeeze(u0),)
         outputs_len = 1
@@ -460,6 +475,8 @@ def _assemble_intensity_and_fluxes(
         
         # Atmospheric layer indices
         l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
+        if is_antiderivative_wrt_tau:
+            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)
         scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
         scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]
 
@@ -521,6 +538,8 @@ def _assemble_intensity_and_fluxes(
             )
             
         flux = 2 * pi * (mu_arr_pos * W) @ u0_pos
+        if is_antiderivative_wrt_tau:
+            flux = _join_layers(flux, l, NLayers, autograd_compatible)
         
         if return_tau_arr:
             return rescale_factor * np.squeeze(flux)[()], tau_arr.copy()
@@ -542,6 +561,8 @@ def _assemble_intensity_and_fluxes(
 
         # Atmospheric layer indices
         l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
+        if is_antiderivative_wrt_tau:
+            tau, l = _append_interfaces(tau, l, tau_arr, autograd_compatible)
         scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
         scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]
 
@@ -603,6 +624,9 @@ def _assemble_intensity_and_fluxes(
             )
             
         diffuse_flux = 2 * pi * (mu_arr_pos * W) @ u0_neg + direct_beam_scaled - direct_beam
+        if is_antiderivative_wrt_tau:
+            diffuse_flux = _join_layers(diffuse_flux, l, NLayers, autograd_compatible)
+            direct_beam = _join_layers(direct_beam, l, NLayers, autograd_compatible)
         
         if return_tau_arr:
             return (
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 0374e57..982ac93 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -413,6 +413,8 @@ def pydisort(
         def TMS_correction(tau, phi, is_antiderivative_wrt_tau, l, l_uniq, l_inv):
             Ntau = len(tau)
             Nphi = len(phi)
+            if is_antiderivative_wrt_tau:
+                tau, l = subroutines._append_interfaces(tau, l, tau_arr, autograd_compatible)
             # Every layer contributes to the solution in every other layer, so all are needed
             if is_atmos_multilayered:
                 l_uniq, l_inv = np.arange(NLayers), l
@@ -596,6 +598,10 @@ def pydisort(
                     else:
                         solution[N:, :, :] += tmp
 
+                if is_antiderivative_wrt_tau:
+                    solution = np.moveaxis(
+                        subroutines._join_layers(np.moveaxis(solution, 1, -1), l, NLayers, autograd_compatible), -1, 1
+                    )
                 return solution
 
             # --------------------------------------------------------------------------------------------------------------------------
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index f95d4b2..0b7d817 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -871,6 +871,42 @@ def _mathscr_v(tau,                             # Input optical depths
 
 
 
+def _append_interfaces(tau, l, tau_arr, autograd_compatible=False):
+    """Appends every layer interface to the optical depths ``tau`` (with layer indices ``l``) twice,
+    as a point of the layer above and as a point of the layer below it. Refer to ``_join_layers``.
+
+    """
+    if autograd_compatible:
+        import autograd.numpy as np
+    else:
+        import numpy as np
+
+    above = np.arange(len(tau_arr) - 1)
+    return (
+        np.concatenate((tau, tau_arr[:-1], tau_arr[:-1])),
+        np.concatenate((l, above, above + 1)),
+    )
+
+
+def _join_layers(antiderivative, l, NLayers, autograd_compatible=False):
+    """Makes an antiderivative with respect to ``tau`` (last axis) continuous across layer interfaces.
+    It must have been evaluated at the optical depths and layer indices ``l`` from ``_append_interfaces``.
+    The jumps at the interfaces are removed, and so are the appended points.
+
+    """
+    if autograd_compatible:
+        import autograd.numpy as np
+    else:
+        import numpy as np
+
+    Ntau = len(l) - 2 * (NLayers - 1)
+    jumps = antiderivative[..., Ntau : Ntau + NLayers - 1] - antiderivative[..., Ntau + NLayers - 1 :]
+    constants = np.concatenate(
+        (np.zeros(antiderivative.shape[:-1] + (1,)), np.cumsum(jumps, axis=-1)), axis=-1
+    )
+    return antiderivative[..., :Ntau] + constants[..., l[:Ntau]]
+
+
 def _compare(results, mu_to_compare, reorder_mu, flux_up, flux_down, u=None):
     """Performs pointwise comparisons between results from Stamnes' DISORT,
     which are stored in ``.npz`` files, against results from PythonicDISORT. Used in our PyTests.
-- 
2.43.0


From 4143040778e9fc598f89915052969a890ab5059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 20/22] fix: all results were zero when every boundary source
 was negative and there was no other source

---
 src/PythonicDISORT/pydisort.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 982ac93..84a3ef5 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -368,6 +368,8 @@ def pydisort(
         scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()
     else:
         rescale_factor = np.max((I0, np.max(b_pos), np.max(b_neg)))
+        if rescale_factor == 0: # There may still be negative boundary sources
+            rescale_factor = np.max((np.max(np.abs(b_pos)), np.max(np.abs(b_neg))))
         if rescale_factor != 0:
             I0 = (I0 / rescale_factor).copy()
             b_pos = (b_pos / rescale_factor).copy()
-- 
2.43.0


From 8c4a4b7eda9e29be956dcf3640d1ea1fc1d88b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:20 +0000
Subject: [PATCH 21/22] fix: intensity corrections were NaN below or above an
 opaque layer

The single scattering sums over the other layers were divided by the transmission from the top,
which underflows to zero for thick layers. Accumulate them layer by layer instead.
---
 src/PythonicDISORT/pydisort.py | 40 +++++++++++++---------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 84a3ef5..45233e2 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -514,11 +514,7 @@ def pydisort(
                 Bneg = mathscr_B[N:, :, :]                       # (N, NLayers, Nphi)
 
                 # decay[n,r] = exp(-scaled_thickness_arr[r]/mu[n]); always <= 1
-                log_decay = -scaled_thickness_arr[None, :] * M_inv[:, None]                    # (N, NLayers)
-
-                # decay_prod[n,k] = prod_{m=0}^{k-1} decay[n,m], with decay_prod[:,0]=1
-                log_decay_prod = np.cumsum(log_decay, axis=1) # The cumsum requires ALL layers; `l_uniq` is inapplicable
-                decay_prod = np.concatenate((np.ones((N, 1)), np.exp(log_decay_prod)), axis=1) # (N, NLayers + 1)
+                decay = np.exp(-scaled_thickness_arr[None, :] * M_inv[:, None])                # (N, NLayers)
 
                 if is_antiderivative_wrt_tau:
                     # (N, Ntau)
@@ -533,15 +529,13 @@ def pydisort(
                     em1_pos = -np.expm1(-thickness_pos)                                         # (N, NLayers)
                     layer_term_pos = em1_pos * exp_taufront_mu0_inv[None, :]                    # (N, NLayers)
 
-                    # Reverse-scan via cumsum:
-                    # Rpos[l] = (1/decay_prod[l+1]) * sum_{r=l+1..} (layer_term_pos[r] * decay_prod[r])
-                    weighted_layer_term_pos = (
-                        layer_term_pos * decay_prod[:, :NLayers]
-                    )[:, :, None] * Bpos                                                        # (N, NLayers, Nphi)
-                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers, Nphi)
-
-                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers, None]            # (N, NLayers - 1, Nphi)
-                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1, Nphi))], axis=1)          # (N, NLayers, Nphi)
+                    # Reverse scan, the products of `decay` may underflow and cannot be divided out:
+                    # Rpos[l] = layer_term_pos[l+1] * Bpos[l+1] + decay[l+1] * Rpos[l+1]
+                    weighted_layer_term_pos = layer_term_pos[:, :, None] * Bpos                 # (N, NLayers, Nphi)
+                    Rpos = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1, 0, -1):
+                        Rpos.append(weighted_layer_term_pos[:, r] + decay[:, r, None] * Rpos[-1])
+                    Rpos = np.stack(Rpos[::-1], axis=1)                                         # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     # expfac_pos = exp(M_inv*tau) * exp(-M_inv*scaled_tauwith0_back[l])
@@ -560,8 +554,6 @@ def pydisort(
                 # NEG: pre-accumulate "contribution from above" sums Rneg[N, l, Nphi]
                 # ====================================================================
                 if any_neg:
-                    decay = np.exp(log_decay)                                                    # (N, NLayers)
-                    
                     # Ensure no positive exponents
                     thickness_neg = scaled_thickness_arr[None, :] * (M_inv - mu0_inv)[:, None]   # (N, NLayers)
                     mask = (thickness_neg >= 0)
@@ -578,15 +570,13 @@ def pydisort(
                     layer_term_posthick = -em1_neg * exp_x1                                      # (N, NLayers)
                     layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)
 
-                    # Forward-scan via cumsum:
-                    # Rneg[l] = decay_prod[l] * sum_{r<l} layer_term_neg[r] / decay_prod[r+1]
-                    weighted_layer_term_neg = (
-                        layer_term_neg / decay_prod[:, 1:]
-                    )[:, :, None] * Bneg                                                         # (N, NLayers, Nphi)
-                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers, Nphi)
-                    
-                    Rneg_rest = decay_prod[:, 1 : NLayers, None] * cumsum_neg[:, :-1]            # (N, NLayers - 1, Nphi)
-                    Rneg = np.concatenate([np.zeros((N, 1, Nphi)), Rneg_rest], axis=1)           # (N, NLayers, Nphi)
+                    # Forward scan, the products of `decay` may underflow and cannot be divided out:
+                    # Rneg[l] = layer_term_neg[l-1] * Bneg[l-1] + decay[l-1] * Rneg[l-1]
+                    weighted_layer_term_neg = layer_term_neg[:, :, None] * Bneg                  # (N, NLayers, Nphi)
+                    Rneg = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1):
+                        Rneg.append(weighted_layer_term_neg[:, r] + decay[:, r, None] * Rneg[-1])
+                    Rneg = np.stack(Rneg, axis=1)                                                # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     expfac_neg = np.exp(M_inv[:, None] * (scaled_tauwith0_front[l] - scaled_tau)[None, :])  # (N, Ntau)
-- 
2.43.0


From b73d7d582d07583b5459a56028cc9614a7a3eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:48 +0000
Subject: [PATCH 22/22] fix: factorials overflowed for internal sources with
 more than 21 polynomial coefficients

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 0b7d817..d2dd3d9 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -846,7 +846,7 @@ def _mathscr_v(tau,                             # Input optical depths
         fac = np.empty(Nscoeffs)
         fac[0] = 1
         if Nscoeffs > 1:
-            fac[1:] = np.cumprod(np.arange(1, Nscoeffs))
+            fac[1:] = np.cumprod(np.arange(1.0, Nscoeffs))
         fac_rev = fac[::-1]
         inv_fac_rev = 1 / fac_rev
 
-- 
2.43.0

