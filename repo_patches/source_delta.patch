From ef9800543dceff9a4723244426489313ee95487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:33 +0000
Subject: [PATCH 01/11] fix: IMRPhenomXAS coalescence time and phase enter with
 the sign and factor of the other models

---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index b9b8c95..80619a1 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1356,7 +1356,7 @@ def _gen_IMRPhenomXAS(
         + PI / 4.0
         + PI
     )
-    ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - theta_extrinsic[2]
+    ext_phase_contrib = -2.0 * PI * f * theta_extrinsic[1] + 2 * theta_extrinsic[2]
     Psi = Psi + (linb * fM_s) + lina + phifRef - 2 * PI + ext_phase_contrib
 
     A = Amp(f, theta_intrinsic, amp_coeffs, D=theta_extrinsic[0])
-- 
2.43.0


From 837b3c929a082d6de7fb6d47693ba86290de9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:33 +0000
Subject: [PATCH 02/11] fix: IMRPhenomPv2 coalescence time is a time shift
 exp(-2 pi i f tc)

---
 src/ripplegw/waveforms/IMRPhenomPv2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index d103328..2a6f123 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -243,8 +243,7 @@ def gen_IMRPhenomPv2(
     # )
     t0 = jax.grad(phi_IIb)(f_RD) / (2 * jnp.pi)
     phase_corr = jnp.cos(2 * jnp.pi * fs * (t0)) - 1j * jnp.sin(2 * jnp.pi * fs * (t0))
-    M_s = (m1 + m2) * gt
-    phase_corr_tc = jnp.exp(-1j * fs * M_s * tc)
+    phase_corr_tc = jnp.exp(-2j * jnp.pi * fs * tc)
     hp *= phase_corr * phase_corr_tc
     hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From b0d7d41bc293d1127635a28b8586d49a59a9dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:33 +0000
Subject: [PATCH 03/11] fix: IMRPhenomPv2 aligned-spin limit of the precession
 angles (phiRef dependence and sign)

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 42aac9a..2d28c3b 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -92,7 +92,11 @@ def convert_spins(
 
     thetaJ_sf = jnp.arccos(J0z_sf / J0)
 
-    phiJ_sf = jnp.arctan2(J0y_sf, J0x_sf)
+    # In the aligned-spin limit J is along z and its azimuth is a convention (see LAL)
+    aligned = (jnp.abs(J0x_sf) < 1e-15) & (jnp.abs(J0y_sf) < 1e-15)
+    phiJ_sf = jnp.where(
+        aligned, jnp.pi / 2.0 - phiRef, jnp.arctan2(J0y_sf, J0x_sf)
+    )
 
     phi_aligned = -phiJ_sf
 
@@ -117,7 +121,12 @@ def convert_spins(
     tmp_x, tmp_y, tmp_z = ROTATEY(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
     tmp_x, tmp_y, tmp_z = ROTATEZ(kappa, tmp_x, tmp_y, tmp_z)
 
-    alpha0 = jnp.arctan2(tmp_y, tmp_x)
+    # LN is along z in the aligned-spin limit (see LAL)
+    alpha0 = jnp.where(
+        (jnp.abs(tmp_x) < 1e-15) & (jnp.abs(tmp_y) < 1e-15),
+        jnp.pi,
+        jnp.arctan2(tmp_y, tmp_x),
+    )
 
     # Finally we determine thetaJ, by rotating N
     tmp_x, tmp_y, tmp_z = Nx_sf, Ny_sf, Nz_sf
-- 
2.43.0


From 13b487e2e5a7adba714b3cdee647d1e096e365ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:33 +0000
Subject: [PATCH 04/11] fix: IMRPhenomD cutoff at Mf = 0.2 does not depend on
 the frequency grid

---
 src/ripplegw/waveforms/IMRPhenomD.py           | 9 ++-------
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 4 +---
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index efcf84f..2bb9c53 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -494,9 +494,7 @@ def Amp(
     Amp_IIb = get_IIb_Amp(f * M_s, theta, coeffs, f_RD, f_damp)
 
     # And now we can combine them by multiplying by a set of heaviside functions
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Amp = (
         Amp_Ins * jnp.heaviside(f3 - f, 0.5)
         + jnp.heaviside(f - f3, 0.5) * Amp_IIa * jnp.heaviside(f4 - f, 0.5)
@@ -536,10 +534,7 @@ def _gen_IMRPhenomD(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
-    # fcut_true = f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 1f45180..234ed37 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -443,9 +443,7 @@ def gen_IMRPhenomD_NRTidalv2(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
-- 
2.43.0


From f1871e111a678165affb9ea46867ffa3cb3d73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:37 +0000
Subject: [PATCH 05/11] fix: equal-mass waveforms are not NaN when rounding
 takes eta above 1/4

---
 src/ripplegw/waveforms/IMRPhenomD.py         |  2 +-
 src/ripplegw/waveforms/IMRPhenomD_utils.py   |  4 ++--
 src/ripplegw/waveforms/IMRPhenomPv2.py       |  2 +-
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py |  2 +-
 src/ripplegw/waveforms/IMRPhenomXAS.py       | 14 +++++++-------
 src/ripplegw/waveforms/IMRPhenomX_utils.py   |  6 +++---
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index 2bb9c53..815300e 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -214,7 +214,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, coeffs: Array) -> Array:
     eta2 = eta * eta
     eta3 = eta * eta2
 
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     SetaPlus1 = 1.0 + Seta
 
     # Spin variables
diff --git a/src/ripplegw/waveforms/IMRPhenomD_utils.py b/src/ripplegw/waveforms/IMRPhenomD_utils.py
index 61a7ab2..2cee169 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_utils.py
@@ -38,7 +38,7 @@ def EradRational0815_s(eta, s):
 
 
 def EradRational0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
@@ -146,7 +146,7 @@ def get_coeffs(theta: Array) -> Array:
     # Definition of chiPN from lalsuite
     chi_s = (chi1 + chi2) / 2.0
     chi_a = (chi1 - chi2) / 2.0
-    seta = (1 - 4 * eta) ** (1 / 2)
+    seta = jnp.sqrt(jnp.maximum(1 - 4 * eta, 0.0))
     chiPN = chi_s * (1 - 76 * eta / 113) + seta * chi_a
 
     coeff = (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index 2a6f123..e546ac3 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -33,7 +33,7 @@ def PhenomPCoreTwistUp(
 
     # here it is used to be LAL_MTSUN_SI
     f = fHz * gt * M  # Frequency in geometric units
-    q = (1.0 + jnp.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+    q = (1.0 + jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0)) - 2.0 * eta) / (2.0 * eta)
     m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
     m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
     Sperp = chip * (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 2d28c3b..61134d1 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -31,7 +31,7 @@ def ROTATEY(angle, x, y, z):
 
 
 def FinalSpin0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index 80619a1..c750919 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -25,7 +25,7 @@ def get_inspiral_phase(fM_s: Array, theta: Array, phase_coeffs: Array) -> Array:
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
     eta3 = eta2 * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -342,7 +342,7 @@ def get_intermediate_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -554,7 +554,7 @@ def get_mergerringdown_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
     chi_eff = mm1 * chi1 + mm2 * chi2
@@ -811,7 +811,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, amp_coeffs: Array) -> Array:
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1018,7 +1018,7 @@ def get_intermediate_Amp(
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1212,7 +1212,7 @@ def get_mergerringdown_Amp(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1331,7 +1331,7 @@ def _gen_IMRPhenomXAS(
 
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
diff --git a/src/ripplegw/waveforms/IMRPhenomX_utils.py b/src/ripplegw/waveforms/IMRPhenomX_utils.py
index a8f8c48..2298c3f 100644
--- a/src/ripplegw/waveforms/IMRPhenomX_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomX_utils.py
@@ -20,7 +20,7 @@ def get_cutoff_fMs(m1, m2, chi1, chi2):
     # m1Sq = m1_s * m1_s
     # m2Sq = m2_s * m2_s
 
-    delta = jnp.sqrt(1.0 - 4.0 * eta_s)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta_s, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
@@ -432,7 +432,7 @@ def Eqspin_CV(EqSpin_coeffs, eta, S):
 
 def Uneqspin_CV(EqSpin_coeffs, eta, S, chia):
     chia2 = chia * chia
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     eta2 = eta * eta
     eta3 = eta2 * eta
     eta4 = eta3 * eta
@@ -522,7 +522,7 @@ def Amp_Eqspin_CV(EqSpin_coeffs, eta, S):
 
 
 def Amp_Uneqspin_CV(UneqSpin_coeffs, eta, S, chia):
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     return (
         chia
         * delta
-- 
2.43.0


From 23e45fae4960733d2b12fdaa6294d414fde66c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:55 +0000
Subject: [PATCH 06/11] fix: nearly equal masses do not give eta above 1/4 (NaN
 on inversion)

---
 src/ripplegw/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index f80bbd6..d45c22d 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -49,7 +49,9 @@ def ms_to_Mc_eta(m):
         the component masses
     """
     m1, m2 = m
-    return (m1 * m2) ** (3 / 5) / (m1 + m2) ** (1 / 5), m1 * m2 / (m1 + m2) ** 2
+    # rounding must not take eta above its maximum for nearly equal masses
+    eta = jnp.minimum(m1 * m2 / (m1 + m2) ** 2, 0.25)
+    return (m1 * m2) ** (3 / 5) / (m1 + m2) ** (1 / 5), eta
 
 
 # TODO in code below, reduce copy-paste
@@ -76,7 +78,7 @@ def lambdas_to_lambda_tildes_from_q(params: Array):
         Dominant tidal term.
     """
     lambda_1, lambda_2, q = params
-    eta = q / (1 + q) ** 2
+    eta = jnp.minimum(q / (1 + q) ** 2, 0.25)
     lambda_plus = lambda_1 + lambda_2
     lambda_minus = lambda_1 - lambda_2
     lambda_tilde = (
@@ -236,7 +238,7 @@ def lambda_tildes_to_lambdas_from_q(params: Array):
 
     lambda_tilde, delta_lambda_tilde, q = params
 
-    eta = q / (1 + q) ** 2
+    eta = jnp.minimum(q / (1 + q) ** 2, 0.25)
 
     coefficient_1 = 1 + 7 * eta - 31 * eta**2
     coefficient_2 = (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
-- 
2.43.0


From 0956e2d1e9a8c4983ef477e783bc90d153190cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:31 +0000
Subject: [PATCH 07/11] fix: clightGpc is in gigaparsecs per second

---
 src/ripplegw/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/constants.py b/src/ripplegw/constants.py
index 6307f91..a9b09f5 100644
--- a/src/ripplegw/constants.py
+++ b/src/ripplegw/constants.py
@@ -31,7 +31,7 @@ m_per_Mpc = 3.085677581491367278913937957796471611e22
 Meters per Mpc.
 """
 
-clightGpc = C / 3.0856778570831e22
+clightGpc = C / 3.0856778570831e25
 """
 Speed of light in vacuum (:math:`c`), in gigaparsecs per second
 """
-- 
2.43.0


From 0ba427b9b72cebf986fb24d097aa6cb8a0d60d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:42 +0000
Subject: [PATCH 08/11] fix: get_eff_pads rounds fs/df instead of truncating
 (padding one entry short)

---
 src/ripplegw/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index d45c22d..e595ae0 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -367,9 +367,10 @@ def get_eff_pads(fs: Array) -> Tuple[Array, Array]:
             "function will thus yield inaccurate results when used with fft/ifft."
         )
 
-    N = 2 * jnp.array(fs[-1] / df - 1).astype(int)
-    pad_low = jnp.zeros(jnp.array(fs[0] / df).astype(int))
-    pad_high = jnp.zeros(N - jnp.array(fs[-1] / df).astype(int))
+    # Round: truncation would lose an entry when fs / df is just below an integer
+    N = 2 * jnp.rint(fs[-1] / df - 1).astype(int)
+    pad_low = jnp.zeros(jnp.rint(fs[0] / df).astype(int))
+    pad_high = jnp.zeros(N - jnp.rint(fs[-1] / df).astype(int))
     return pad_low, pad_high
 
 
-- 
2.43.0


From db667e6f77afe929533ad8e04c25e48ceb4731e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 09/11] fix: tabulated PSDs are inf, not nan, between infinite
 table entries (O2 below 15 Hz)

---
 src/ripplegw/noise.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ripplegw/noise.py b/src/ripplegw/noise.py
index 3e883fc..3b38286 100644
--- a/src/ripplegw/noise.py
+++ b/src/ripplegw/noise.py
@@ -78,10 +78,19 @@ def _load_noise(
     Sns = jnp.array(Sns)
     f_range = (fs[0], fs[-1])
 
-    return (
-        jax.jit(lambda f: jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf)),
-        f_range,
-    )
+    # Interpolating between infinite entries would give nan instead of inf
+    blind = jnp.isinf(Sns)
+    Sns = jnp.where(blind, 0.0, Sns)
+
+    @jax.jit
+    def Sn(f):
+        return jnp.where(
+            jnp.interp(f, fs, blind.astype(fs.dtype)) > 0,
+            jnp.inf,
+            jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf),
+        )
+
+    return Sn, f_range
 
 
 Sn_aLIGO, f_range_aLIGO = _load_noise("aLIGO", asd=True)
-- 
2.43.0


From 3b4a6445b952063b35d1b7300a7c35c9f4abd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 10/11] fix: Planck taper is zero, not one, exactly at its end

---
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 234ed37..7f0be7b 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -39,7 +39,7 @@ def get_planck_taper(x: Array, y: float) -> Array:
         x < y,
         1.0,
         jnp.where(
-            x > yp,
+            x >= yp,
             0.0,
             1.0 - 1.0 / (jnp.exp((yp - y) / (x - y) + (yp - y) / (x - yp)) + 1.0),
         ),
-- 
2.43.0


From 446e44e1637a37d49b536c921b7aaba5ca31ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 11/11] fix: derivative of the Planck taper with respect to the
 frequency is not zero

---
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 7f0be7b..5c94813 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -79,8 +79,10 @@ def get_planck_taper_der(x: Array, y: float):
     return tangent_out
 
 
+# The taper only depends on x / y
 get_planck_taper.defjvps(
-    None, lambda y_dot, primal_out, x, y: get_planck_taper_der(x, y) * y_dot
+    lambda x_dot, primal_out, x, y: -get_planck_taper_der(x, y) * y / x * x_dot,
+    lambda y_dot, primal_out, x, y: get_planck_taper_der(x, y) * y_dot,
 )
 
 
-- 
2.43.0

