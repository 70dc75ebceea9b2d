From fd6692d01ede7fb7c26d9d57295a2009e1dae7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 01/27] fix: linear_chi2 must broadcast a scalar err to every
 point

A scalar err (including the documented default 0.0) gave a scalar weight, so
the sum of weights was 1/err^2 instead of n/err^2 and the fit was wrong; a
Python-float 0.0 raised ZeroDivisionError.
---
 src/microjax/likelihood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/microjax/likelihood.py b/src/microjax/likelihood.py
index c99136a..56ec038 100644
--- a/src/microjax/likelihood.py
+++ b/src/microjax/likelihood.py
@@ -62,7 +62,9 @@ def linear_chi2(x: Array, y: Array, err: Union[float, Array] = 0.0) -> Tuple[flo
     The solution minimizes ``sum_i w_i (y_i - a - b x_i)^2`` with
     ``w_i = 1/err_i^2`` when ``err_i > 0`` else ``w_i = 1``.
     """
-    wt = jnp.where(err > 0, 1.0 / (err ** 2), 1.0)
+    err = jnp.broadcast_to(jnp.asarray(err), jnp.shape(x))
+    has_err = err > 0
+    wt = jnp.where(has_err, 1.0 / jnp.where(has_err, err, 1.0) ** 2, 1.0)
     sumw = jnp.sum(wt)
     sumx = jnp.sum(wt * x)
     sumy = jnp.sum(wt * y)
-- 
2.43.0


From 3f7e73a8d6ad696db2482cb17c1d1f6454cf6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 02/27] fix: mag_limb_dark must trace the limb with the
 requested number of lenses

---
 src/microjax/inverse_ray/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 08a18ee..a85e21f 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -119,7 +119,7 @@ def mag_limb_dark(
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
-    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params)
+    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, nlenses=nlenses, **_params)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
 
-- 
2.43.0


From cdfcd7c69447cbf5060ffb786ad22a6523957eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 03/27] fix: triple-lens contour engine used a wrong primary
 mass fraction

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index ea8716a..b3deea2 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -97,7 +97,7 @@ def mag_extended_source(
         r3, psi = params["r3"], params["psi"]
         a = 0.5 * s
         e1 = q / (1.0 + q + q3)
-        e2 = (1 - q3) / (1.0 + q + q3)
+        e2 = 1.0 / (1.0 + q + q3)
         _params = {"a": a, "r3": r3, "psi": psi, "e1": e1, "e2": e2}
         x_cm = a * (1 - q) / (1 + q)
         w0 -= x_cm
-- 
2.43.0


From 59f2e332ff9d93aae48c0b9775f3abf810bfe0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 04/27] fix: planetary-caustic test was centred on the wrong
 point

---
 src/microjax/caustics/lightcurve.py       | 2 +-
 src/microjax/inverse_ray/cond_extended.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index b34efb5..32533b9 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -124,7 +124,7 @@ def _planetary_caustic_test(w, rho, c_p=2., **params):
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 7c7d76f..e538900 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -112,6 +112,6 @@ def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) ->
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
-- 
2.43.0


From 4e79036ecfc9a9956784ecd73ea5e35149423915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 05/27] fix: magnifications ignored limb darkening in its
 multipole branch

---
 src/microjax/caustics/lightcurve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 32533b9..348a91a 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -244,13 +244,15 @@ def magnifications(
         **_params
     )
 
+    u1_multi = u1 if limb_darkening else 0.0
+
     if nlenses==1:
         test = w_points > 2*rho
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)  # miyazaki
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)  # miyazaki
     elif nlenses==2:
         # Compute hexadecapole approximation at every point and a test where it is
         # sufficient
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)
         test1 = _caustics_proximity_test(
             w_points - x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params #miyazaki
             #w_points + x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params
-- 
2.43.0


From 1a98524d0635c0ea8d9b1631ede24f4d17980ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 06/27] fix: mag_hexadecapole placed the third lens without its
 azimuth psi

---
 src/microjax/multipole.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/microjax/multipole.py b/src/microjax/multipole.py
index 7148f22..1b60c5f 100644
--- a/src/microjax/multipole.py
+++ b/src/microjax/multipole.py
@@ -260,7 +260,7 @@ def mag_hexadecapole(
     **params
         Additional lens parameters in the mid-point coordinate system. For
         binaries this expects ``a`` and ``e1``; for triples ``a``, ``r3``,
-        ``e1`` and ``e2`` in addition to any other configuration details.
+        ``psi``, ``e1`` and ``e2`` in addition to any other configuration details.
 
     Returns
     -------
@@ -291,13 +291,14 @@ def mag_hexadecapole(
         )
     elif nlenses == 3:
         a, r3, e1, e2 = params["a"], params["r3"], params["e1"], params["e2"]
+        r3_complex = r3 * jnp.exp(1j * params.get("psi", 0.0))
         W = (
             lambda k: (-1) ** (k - 1)
             * factorial(k - 1)
             * (
                 e1 / (z - a) ** k
                 + e2 / (z + a) ** k
-                + (1.0 - e1 - e2) / (z - r3) ** k
+                + (1.0 - e1 - e2) / (z - r3_complex) ** k
             )
         )
     else:
-- 
2.43.0


From b7ea7b09b4f8382a78057a0ab1a64b3f01ba7df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 07/27] fix: _merge_final must drop only the angular intervals
 it has merged

---
 src/microjax/inverse_ray/merge_area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 3cfe72a..71babc0 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -215,7 +215,7 @@ def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
     th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
 
     new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    cond_vanish = jnp.any(jnp.any(same_r, axis=1)&(th_mins == 0)) & (th_maxs == 2*jnp.pi)  # (N, ) shape
+    cond_vanish = jnp.any(cond_merge, axis=0)  # (N, ) shape, only the rows that were merged
     new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
     
     sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-- 
2.43.0


From 03a95d2299966bfbda879f3e8d638e621302f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 08/27] fix: JAX linear limb-darkened FFT magnification used a
 wrong profile transform and A(0)

---
 src/microjax/fastlens/mag_fft_jax.py | 45 +++++++++++++++-------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 4709c93..7ded8b8 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -8,6 +8,26 @@ from jax import jit, lax, vmap
 def A_point(u):
     return (u**2 + 2) / jnp.abs(u) / (u**2 + 4)**0.5
 
+def _sk_linear_limb(x, a1):
+    """
+    Fourier counter part of the normalized linear limb-darkened profile,
+    (1 - a1 * (1 - sqrt(1 - (u/rho)^2))) / (1 - a1/3), as a function of x = k * rho
+    """
+    x = jnp.atleast_1d(x)
+    small = x < 1e-2
+    y = jnp.where(small, 1.0, x)
+    sk_disk = jnp.where(small, 1.0 - x**2 / 8.0 + x**4 / 192.0, 2.0 * j1(y) / y)
+    sk_sqrt = jnp.where(small, 1.0 - x**2 / 10.0 + x**4 / 280.0, 3.0 * (jnp.sin(y) - y * jnp.cos(y)) / y**3)
+    return ((1.0 - a1) * sk_disk + 2.0 * a1 / 3.0 * sk_sqrt) / (1.0 - a1 / 3.0)
+
+def _A0_linear_limb(rho, a1):
+    """
+    Magnification at u = 0 of the normalized linear limb-darkened profile
+    """
+    A0_disk = (rho**2 + 4)**0.5 / rho
+    A0_sqrt = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3
+    return ((1.0 - a1) * A0_disk + 2.0 * a1 / 3.0 * A0_sqrt) / (1.0 - a1 / 3.0)
+
 class mag_:
     def __init__(self, fft_logumin=-6, fft_logumax=3, N_fft=1024, normalize_sk=True, rho_switch=1e-4, u_switch=10):
         """
@@ -97,18 +117,10 @@ class mag_limb(mag_):
         return su
 
     def sk(self, k, rho, a1):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho, a1)
-        h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        return _sk_linear_limb(k * rho, a1)
 
     def A0(self, rho, a1):
-        A0_disk  = (rho**2 + 4)**0.5 / rho 
-        A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - a1
-        return (A0_disk - a1 * A0_term1) / norm 
+        return _A0_linear_limb(rho, a1)
 
 # FFT based magnification
 class magnification:
@@ -266,13 +278,7 @@ class mag_limb1(magnification):
         return su
 
     def sk(self, k, rho):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho)
-        h = hankel(u, u2su, nu=1.5)
-        #h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        return _sk_linear_limb(k * rho, self.a1)
 
     def sk__(self, k, rho):
         k = jnp.atleast_1d(k)
@@ -297,10 +303,7 @@ class mag_limb1(magnification):
         return sk
 
     def A0(self, rho):
-        A0_disk  = (rho**2 + 4)**0.5 / rho 
-        A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - self.a1
-        return (A0_disk - self.a1 * A0_term1) / norm 
+        return _A0_linear_limb(rho, self.a1)
 
 
 class magnification_limb1(magnification):
-- 
2.43.0


From eecbfd6cbc9e2a6f03670d255890485d1b2b7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 09/27] fix: JAX FFT magnification must extrapolate A(u)-1 like
 the reference (A fell below 1)

---
 src/microjax/fastlens/mag_fft_jax.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 7ded8b8..520ffb6 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -48,8 +48,7 @@ class mag_:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
     
@@ -156,8 +155,7 @@ class magnification:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
 
-- 
2.43.0


From 2527c1c14ceefb1563427b9adfa80dcf8aa0f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 10/27] fix: ellipk and ellipe raised TypeError for array
 arguments

---
 src/microjax/fastlens/special.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index e14a36c..7574dc0 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -137,7 +137,8 @@ def agm(a, b, num_iter=5):
 @custom_jvp
 def ellipk_(m):
     num_iter = 5
-    a, b = 1.0, jnp.sqrt(1 - m)
+    b = jnp.sqrt(1 - m)
+    a = jnp.ones_like(b)
     c = agm(a, b, num_iter=num_iter)
     return jnp.pi / (2 * c)
 
@@ -173,7 +174,8 @@ def agm2(a0, b0, s_sum0, num_iter=5):
 @custom_jvp
 def ellipe_(m):
     num_iter = 5
-    a0, b0 = 1.0, jnp.sqrt(1 - m)
+    b0 = jnp.sqrt(1 - m)
+    a0 = jnp.ones_like(b0)
     c0 = jnp.sqrt(jnp.abs(a0**2 - b0**2))
     # c0     = jnp.sqrt(a0**2 - b0**2)
     s_sum0 = 0.5 * c0**2
-- 
2.43.0


From 32d89582c480c233bdee9645b8428af2575ba44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 11/27] fix: derivatives of ellipk and ellipe were NaN at m = 0

---
 src/microjax/fastlens/special.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index 7574dc0..3891bc2 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -151,7 +151,11 @@ def ellipk_jvp(primals, tangents):
         m,
     )
     # Derivative of the complete elliptic integral of the first kind with respect to m
-    dk_dm = (ellipe_(m) - (1 - m) * k_val) / (2 * m * (1 - m))
+    # (the closed form is 0/0 at m = 0, where its Taylor expansion is used instead)
+    small = jnp.abs(m) < 1e-6
+    m_ = jnp.where(small, 0.5, m)
+    dk_dm = (ellipe_(m) - (1 - m) * k_val) / (2 * m_ * (1 - m_))
+    dk_dm = jnp.where(small, jnp.pi / 2 * (1 / 4 + 9 / 32 * m), dk_dm)
     return k_val, m_dot * dk_dm
 
 
@@ -190,7 +194,9 @@ def ellipe_jvp(primals, tangents):
     e_val = ellipe_(m)
     k_val = ellipk_(m)
     # Derivative of the complete elliptic integral of the second kind with respect to m
-    de_dm = (e_val - k_val) / (2 * m)
+    small = jnp.abs(m) < 1e-6
+    de_dm = (e_val - k_val) / (2 * jnp.where(small, 1.0, m))
+    de_dm = jnp.where(small, -jnp.pi / 2 * (1 / 4 + 3 / 32 * m), de_dm)
     return e_val, m_dot * de_dm
 
 
@@ -212,7 +218,7 @@ def ellipe(m):
 
 def ellipk(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipk_(m),
         1.0 / jnp.sqrt(jnp.abs(m) + 1.0) * ellipk_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
@@ -221,7 +227,7 @@ def ellipk(m):
 
 def ellipe(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipe_(m),
         jnp.sqrt(jnp.abs(m) + 1.0) * ellipe_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
-- 
2.43.0


From b21ba14250aea10ee6d9492677e585fa72fd3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 12/27] fix: single-lens Jacobian determinant is 1 - 1/|z|^4
 (single-lens magnification was wrong)

---
 src/microjax/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index e3ebba1..ebc2555 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -147,7 +147,7 @@ def lens_eq_det_jac(z: jax.Array, nlenses: int = 2, **params) -> jax.Array:
     zbar = jnp.conjugate(z)
 
     if nlenses == 1:
-        return 1.0 - 1.0 / jnp.abs(zbar**2)
+        return 1.0 - 1.0 / jnp.abs(zbar**2) ** 2
 
     if nlenses == 2:
         a, e1 = params["a"], params["e1"]
-- 
2.43.0


From 15bc10776ba87c6e4f33ea2cecfbb09bf2b47906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 13/27] fix: sequential image tracking lost the images created
 when crossing a caustic along a symmetry axis

---
 src/microjax/point_source.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index ebc2555..4ec7fbc 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -392,9 +392,15 @@ def _images_point_source_sequential(w, nlenses=2, **params):
         return z, z_mask
 
     z_first, z_mask_first = fn(w[0])
+
+    # The iteration preserves the mirror symmetry of its initial guess, so guesses
+    # lying exactly on a symmetry axis can never leave it. A small asymmetric
+    # offset lets images created in caustic crossings on an axis be found.
+    n_images = z_first.shape[0]
+    offset = 1e-5 * jnp.exp(1j * (1.0 + jnp.arange(n_images)))
     
     def body_fn(z_prev, w):
-        z, z_mask = fn(w, z_init=z_prev, custom_init=True)
+        z, z_mask = fn(w, z_init=z_prev + offset, custom_init=True)
         return z, (z, z_mask)
 
     _, xs = lax.scan(body_fn, z_first, w[1:])
-- 
2.43.0


From db06d06ac0f6227eaa8ac758bfbcfc95e8e79fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 14/27] fix: poly_roots lost roots of real polynomials
 (conjugate-symmetric starting points)

---
 src/microjax/poly_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index 91a64e5..f319960 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -194,7 +194,7 @@ def poly_roots_EA(
     if initial_roots is None:
         r = _cauchy_radius(coeffs)
         k = jnp.arange(n)
-        initial_roots = r * jnp.exp(2j * jnp.pi * k / n)
+        initial_roots = r * jnp.exp(1j * (2.0 * jnp.pi * k / n + 0.4))
     else:
         initial_roots = _as_complex(initial_roots)
 
-- 
2.43.0


From 3db970e081515c6aa661bf72ec51e8f794c9eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 15/27] fix: images at the origin of the polar frame were
 dropped (too many angular fragments)

---
 src/microjax/inverse_ray/merge_area.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 71babc0..7bec8d5 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -57,8 +57,15 @@ def define_regions(
     r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
 
     in_mask   = _compute_in_mask(r_limb, th_limb, r_map_refine, th_map)
+    th_all    = jnp.tile(th_map, (r_map_refine.shape[0], 1, 1))
+    # Limb samples of an image lying at the origin of the polar frame are too sparse
+    # in angle to delimit it: cover that radial range with the whole circle instead.
+    at_origin = (r_map_refine[:, 0] == 0.0) & (r_map_refine[:, 1] > 0.0)
+    first     = jnp.arange(th_map.shape[0]) == 0
+    in_mask   = jnp.where(at_origin[:, None], first[None, :], in_mask)
+    th_all    = jnp.where(at_origin[:, None, None], jnp.array([0.0, 2*jnp.pi]), th_all)
     r_masked  = jnp.repeat(r_map_refine, th_map.shape[0], axis=0) * in_mask.ravel()[:, None]
-    th_masked = jnp.tile(th_map, (r_map_refine.shape[0], 1)) * in_mask.ravel()[:, None]
+    th_masked = th_all.reshape(-1, 2) * in_mask.ravel()[:, None]
 
     r_excess   = r_masked[jnp.argsort(jnp.isclose(r_masked[:, 1], 0.0))][:nimages_init]
     th_excess  = th_masked[jnp.argsort(jnp.isclose(th_masked[:, 1], 0.0))][:nimages_init]
-- 
2.43.0


From 05265eafc6a8abb4931b684746564abed7908e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 16/27] fix: image regions closing on themselves double counted
 the angular margin

---
 src/microjax/inverse_ray/extended_source.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index a85e21f..467a31c 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -168,7 +168,12 @@ def mag_limb_dark(
         of this subregion.
         """
         r_values = jnp.linspace(r_range[0], r_range[1], r_resolution, endpoint=True)
-        th_values = jnp.linspace(th_range[0], th_range[1], th_resolution, endpoint=True)
+        # Of the th_resolution - 1 angular cells only th_resolution - 4 are summed; a
+        # region closing on itself is sized so that these cover the circle exactly once.
+        closed = th_range[1] - th_range[0] >= 2.0 * jnp.pi
+        th_circle = 2.0 * jnp.pi * (th_resolution - 1) / (th_resolution - 4)
+        th_width = jnp.where(closed, th_circle, th_range[1] - th_range[0])
+        th_values = jnp.linspace(th_range[0], th_range[0] + th_width, th_resolution, endpoint=True)
         area_r = vmap(lambda r: _process_r(r, th_values))(r_values)
         dr = r_values[1] - r_values[0]
         total_area = dr * jnp.sum(area_r) # trapezoidal integration
@@ -304,7 +309,12 @@ def mag_uniform(
         sum across the per-radius angular integrals from ``_process_r``.
         """
         r_values = jnp.linspace(r_range[0], r_range[1], r_resolution, endpoint=True)
-        th_values = jnp.linspace(th_range[0], th_range[1], th_resolution, endpoint=True)
+        # Of the th_resolution - 1 angular cells only th_resolution - 3 are summed; a
+        # region closing on itself is sized so that these cover the circle exactly once.
+        closed = th_range[1] - th_range[0] >= 2.0 * jnp.pi
+        th_circle = 2.0 * jnp.pi * (th_resolution - 1) / (th_resolution - 3)
+        th_width = jnp.where(closed, th_circle, th_range[1] - th_range[0])
+        th_values = jnp.linspace(th_range[0], th_range[0] + th_width, th_resolution, endpoint=True)
         #area_r = jax.checkpoint(vmap(lambda r: _process_r(r, th_values, cubic)))(r_values)
         area_r = vmap(lambda r: _process_r(r, th_values))(r_values)
         dr = r_values[1] - r_values[0]
-- 
2.43.0


From 4813c2771d72cea6003ecb31fc3b53715c12b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 17/27] fix: every ghost image must be far from the caustic
 before the multipole expansion is trusted

---
 src/microjax/caustics/lightcurve.py       | 11 +++++------
 src/microjax/inverse_ray/cond_extended.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 348a91a..9adba69 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -107,15 +107,14 @@ def _caustics_proximity_test(
     test_multipole_and_cusp = gamma * mu_cusp + delta_mu_multi < c_m
 
     # False images test
-    Jhat = 1 - jnp.abs(fp_z * fp_zhat)
+    Jhat = 1 - fp_z * fp_zhat
     factor = jnp.abs(J * Jhat**2 / 
                      (Jhat*fpp_zbar*fp_z - jnp.conjugate(Jhat)  * fpp_z * fp_zbar * fp_zhat)
                      )
-    test_false_images = 0.5 * (~z_mask * factor).sum(axis=0) > c_f * (rho + rho_min)
-    test_false_images = jnp.where((~z_mask).sum(axis=0)==0, 
-                                  jnp.ones_like(test_false_images, dtype=jnp.bool_), 
-                                  test_false_images
-                                  )
+    # every ghost image must be far enough from becoming real
+    test_false_images = jnp.all(
+        z_mask | (0.5 * factor > c_f * (rho + rho_min)), axis=0
+    )
     return test_false_images & test_multipole_and_cusp
 
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index e538900..647351d 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -95,15 +95,14 @@ def _caustics_proximity_test(
     test_multipole_and_cusp = gamma * mu_cusp + delta_mu_multi < c_m
 
     # False images test
-    Jhat = 1 - jnp.abs(fp_z * fp_zhat)
+    Jhat = 1 - fp_z * fp_zhat
     factor = jnp.abs(J * Jhat**2 / 
                      (Jhat*fpp_zbar*fp_z - jnp.conjugate(Jhat)  * fpp_z * fp_zbar * fp_zhat)
                      )
-    test_false_images = 0.5 * (~z_mask * factor).sum(axis=0) > c_f * (rho + rho_min)
-    test_false_images = jnp.where((~z_mask).sum(axis=0)==0, 
-                                  jnp.ones_like(test_false_images, dtype=jnp.bool_), 
-                                  test_false_images
-                                  )
+    # every ghost image must be far enough from becoming real
+    test_false_images = jnp.all(
+        z_mask | (0.5 * factor > c_f * (rho + rho_min)), axis=0
+    )
     return test_false_images & test_multipole_and_cusp
 
 def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) -> Array:
-- 
2.43.0


From 4e4783570ff2acdcb2adb70cfad7a05ab82db150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 18/27] fix: angular samples of an image at the polar origin
 used up the cluster capacity and other images were lost

---
 src/microjax/inverse_ray/merge_area.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 7bec8d5..a902a45 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -47,20 +47,22 @@ def define_regions(
     r_limb     = jnp.abs(image_limb * mask_limb)
     th_limb    = jnp.mod(jnp.arctan2(image_limb.imag, image_limb.real), 2*jnp.pi) * mask_limb
     r_mins, r_maxs   = cluster_1d(r_limb, bins=bins_r, max_cluster=nimages_init)
-    th_mins, th_maxs = cluster_1d(th_limb, bins=bins_th, mode_r=False, max_cluster=nimages_init)
-
     r_map  = jnp.array([r_mins, r_maxs]).T
+    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
+
+    # Limb samples of an image lying at the origin of the polar frame are too sparse
+    # in angle to delimit it: cover that radial range with the whole circle instead
+    # and leave its samples out of the angular clusters.
+    at_origin = (r_map_refine[:, 0] == 0.0) & (r_map_refine[:, 1] > 0.0)
+    r_origin  = jnp.max(jnp.where(at_origin, r_map_refine[:, 1], 0.0))
+    th_mins, th_maxs = cluster_1d(jnp.where(r_limb < r_origin, 0.0, th_limb), bins=bins_th, mode_r=False,
+                                  max_cluster=nimages_init)
     th_map = jnp.array([th_mins, th_maxs]).T
     th_map = jnp.where(jnp.isclose(th_map, 0.0), 0.0, th_map)
     th_map = jnp.where(jnp.isclose(th_map, 2*jnp.pi), 2*jnp.pi, th_map)
 
-    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
-
     in_mask   = _compute_in_mask(r_limb, th_limb, r_map_refine, th_map)
     th_all    = jnp.tile(th_map, (r_map_refine.shape[0], 1, 1))
-    # Limb samples of an image lying at the origin of the polar frame are too sparse
-    # in angle to delimit it: cover that radial range with the whole circle instead.
-    at_origin = (r_map_refine[:, 0] == 0.0) & (r_map_refine[:, 1] > 0.0)
     first     = jnp.arange(th_map.shape[0]) == 0
     in_mask   = jnp.where(at_origin[:, None], first[None, :], in_mask)
     th_all    = jnp.where(at_origin[:, None, None], jnp.array([0.0, 2*jnp.pi]), th_all)
-- 
2.43.0


From bc64331d565016c6c2cac9facbf5eacbc84fa0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 19/27] fix: images sparsely sampled in angle split into more
 fragments than there are regions

---
 src/microjax/inverse_ray/merge_area.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index a902a45..899aa09 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -10,7 +10,7 @@ import jax.numpy as jnp
 from jax import jit, lax, vmap
 from functools import partial
 from microjax.point_source import lens_eq, _images_point_source
-from typing import Tuple
+from typing import Optional, Tuple
 
 Array = jnp.ndarray
 
@@ -55,8 +55,12 @@ def define_regions(
     # and leave its samples out of the angular clusters.
     at_origin = (r_map_refine[:, 0] == 0.0) & (r_map_refine[:, 1] > 0.0)
     r_origin  = jnp.max(jnp.where(at_origin, r_map_refine[:, 1], 0.0))
+    # Closer to the origin than this, a gap of two empty angular bins is shorter than the
+    # source diameter: a gap between samples of one image, not between two images.
+    r_sparse  = 2.0 * rho / (3.0 * 2*jnp.pi / bins_th)
+    close     = (r_origin <= r_limb) & (0.0 < r_limb) & (r_limb < r_sparse)
     th_mins, th_maxs = cluster_1d(jnp.where(r_limb < r_origin, 0.0, th_limb), bins=bins_th, mode_r=False,
-                                  max_cluster=nimages_init)
+                                  max_cluster=nimages_init, close=close)
     th_map = jnp.array([th_mins, th_maxs]).T
     th_map = jnp.where(jnp.isclose(th_map, 0.0), 0.0, th_map)
     th_map = jnp.where(jnp.isclose(th_map, 2*jnp.pi), 2*jnp.pi, th_map)
@@ -157,11 +161,12 @@ def refine_final(
     th_scan_refine = arr[:, 2:]
     return r_scan_refine, th_scan_refine
 
-def cluster_1d(arr: Array, bins: int = 100, max_cluster: int = 5, mode_r: bool = True) -> Tuple[Array, Array]:
+def cluster_1d(arr: Array, bins: int = 100, max_cluster: int = 5, mode_r: bool = True, close: Optional[Array] = None) -> Tuple[Array, Array]:
     """Cluster 1D values via occupancy bins and return start/end edges.
 
     - For radii (``mode_r=True``), the bin range is fit to nonzero samples.
     - For angles, uses [0, 2pi] with light regularization of intervals.
+    - Gaps of one or two empty bins between samples flagged in ``close`` are filled.
     Returns two arrays of the same length with left/right edges of up to
     ``max_cluster`` occupied intervals.
     """
@@ -178,6 +183,12 @@ def cluster_1d(arr: Array, bins: int = 100, max_cluster: int = 5, mode_r: bool =
     bin_indices = jnp.clip(bin_indices, 1, bins)    # [1]-[bin]
     counts = jnp.bincount(bin_indices, length=bins + 2)
     bin_mask = counts > 0 # bins + 2 
+    if close is not None:
+        near = jnp.bincount(jnp.where(close, bin_indices, 0), length=bins + 2)[1:] > 0
+        near = jnp.pad(near, (1, 0))
+        left  = [jnp.pad(near, (k, 0))[:bins + 2] for k in (1, 2)]
+        right = [jnp.pad(near, (0, k))[k:] for k in (1, 2)]
+        bin_mask = bin_mask | (left[0] & (right[0] | right[1])) | (left[1] & right[0])
     diff_mask = jnp.diff(bin_mask.astype(int))  #length: bin + 1
     start_mask = diff_mask == 1 
     end_mask   = diff_mask == -1
-- 
2.43.0


From 04a5910bc1004f98586166de0eff04e57fab0e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 20/27] fix: limb refinement was wasted where the roots change
 order (triple-lens contours missed images)

---
 src/microjax/caustics/extended_source/limb.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/microjax/caustics/extended_source/limb.py b/src/microjax/caustics/extended_source/limb.py
index 70778f5..f6453a8 100644
--- a/src/microjax/caustics/extended_source/limb.py
+++ b/src/microjax/caustics/extended_source/limb.py
@@ -146,13 +146,13 @@ def _images_of_source_limb(
     n = int(npts_additional / niter)
 
     for _ in range(niter):
-        delta_z = jnp.abs(z[:, 1:] - z[:, :-1])
-        delta_z = jnp.where(
-            jnp.logical_or(z_mask[:, 1:], z_mask[:, :-1]),
-            delta_z,
-            jnp.zeros_like(delta_z.real),
+        # distance of every real image to the closest root of the neighbouring sample:
+        # the order of the roots may change from one sample to the next
+        delta_z = jnp.abs(z[:, None, 1:] - z[None, :, :-1])
+        delta_z_max = jnp.maximum(
+            jnp.max(jnp.where(z_mask[:, 1:], jnp.min(delta_z, axis=1), 0.0), axis=0),
+            jnp.max(jnp.where(z_mask[:, :-1], jnp.min(delta_z, axis=0), 0.0), axis=0),
         )
-        delta_z_max = jnp.max(delta_z, axis=0)
         idcs_theta = jnp.argsort(delta_z_max)[::-1][:n]
 
         theta_new = 0.5 * (theta[idcs_theta] + theta[idcs_theta + 1])
-- 
2.43.0


From cf3d68f32cb43613c69d8d3d0ff3ebb9aa0a4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 21/27] fix: merged contours overflowed their buffer when they
 hold more than four full image tracks

---
 src/microjax/caustics/extended_source/segments.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/microjax/caustics/extended_source/segments.py b/src/microjax/caustics/extended_source/segments.py
index 69b5819..99c31d0 100644
--- a/src/microjax/caustics/extended_source/segments.py
+++ b/src/microjax/caustics/extended_source/segments.py
@@ -427,9 +427,11 @@ def _merge_open_segments(
 
     tail_idcs = vmap(last_nonzero)(segments[:, 0, :].real)
 
-    segments = jnp.pad(
-        segments, ((0, 0), (0, 0), (0, 3 * segments.shape[-1])), constant_values=0.0
-    )
+    # A contour may contain every sample of every image track (each track is split
+    # into at most three segments), plus the point that closes it
+    n_segments, _, npts = segments.shape
+    n_pad = max(3, (n_segments - 1) // 3) * npts + 1
+    segments = jnp.pad(segments, ((0, 0), (0, 0), (0, n_pad)), constant_values=0.0)
 
     segments_merged_list = []
 
-- 
2.43.0


From a332419b6774ddb909fc1cff4d2f683626319945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 22/27] fix: images around the origin of the polar frame lost
 their centre with radial margins below one radius

---
 src/microjax/inverse_ray/merge_area.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 899aa09..482ea8a 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -48,7 +48,9 @@ def define_regions(
     th_limb    = jnp.mod(jnp.arctan2(image_limb.imag, image_limb.real), 2*jnp.pi) * mask_limb
     r_mins, r_maxs   = cluster_1d(r_limb, bins=bins_r, max_cluster=nimages_init)
     r_map  = jnp.array([r_mins, r_maxs]).T
-    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
+    # An image of the source around the origin stays within one source radius of it: with a
+    # smaller margin its inner part would be left out.
+    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=jnp.maximum(margin_r, 1.0) * rho)
 
     # Limb samples of an image lying at the origin of the polar frame are too sparse
     # in angle to delimit it: cover that radial range with the whole circle instead
-- 
2.43.0


From a613463b574d1083de94a6c2b504ac2750a58661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 23/27] fix: gamma returned NaN for complex arguments whose
 real part is a non-positive integer

---
 src/microjax/fastlens/special.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index 3891bc2..f9d64c8 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -56,8 +56,10 @@ def gamma_(z):
     # Select the appropriate results based on the masks
     g = jnp.where(not_special_case, positive_results, negative_results)
 
-    non_positive_integer_mask = negative_real_mask & (
-        jnp.real(z) == jnp.floor(jnp.real(z))
+    non_positive_integer_mask = (
+        negative_real_mask
+        & (jnp.real(z) == jnp.floor(jnp.real(z)))
+        & (jnp.imag(z) == 0)
     )
     g = jnp.where(non_positive_integer_mask, jnp.nan, g)
 
-- 
2.43.0


From db717d86efe0d83ff4834eaa4f2881591aa26d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 24/27] fix: Bessel functions j2 and j1p5 and the derivative of
 j1 were NaN at the origin

---
 src/microjax/fastlens/special.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index f9d64c8..754183a 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -509,8 +509,9 @@ def j1_jvp(primals, tangents):
     (m,) = primals
     (m_dot,) = tangents
     primal_out = j1_(m)
-    tangent_out = j0_(m) * m_dot - j1_(m) * m_dot / m
-    # tangent_out = lax.cond(m == 0, lambda _: 0.0, lambda _: tangent_out - j1(m) * m_dot / m, operand=None)
+    # J1(m)/m tends to 1/2 at the origin
+    ratio = jnp.where(m == 0, 0.5, j1_(m) / jnp.where(m == 0, 1.0, m))
+    tangent_out = (j0_(m) - ratio) * m_dot
     return primal_out, tangent_out
 
 
@@ -519,14 +520,18 @@ j1 = jit(vmap(j1_, in_axes=(0,)))
 
 
 def j2_(x):
-    return (2 / x) * j1_(x) - j0_(x)
+    x_ = jnp.where(x == 0, 1.0, x)
+    return jnp.where(x == 0, 0.0, (2 / x_) * j1_(x_) - j0_(x_))
 
 
 j2 = jit(vmap(j2_, in_axes=(0,)))
 
 
 def j1p5_(x):
-    return jnp.sqrt(2 / (jnp.pi * x)) * (jnp.sin(x) / x - jnp.cos(x))
+    x_ = jnp.where(x == 0, 1.0, x)
+    return jnp.where(
+        x == 0, 0.0, jnp.sqrt(2 / (jnp.pi * x_)) * (jnp.sin(x_) / x_ - jnp.cos(x_))
+    )
 
 
 j1p5 = jit(vmap(j1p5_, in_axes=(0,)))
-- 
2.43.0


From 343c785fdb1f63ff9f6430c18a7337d9f103169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 25/27] fix: last_nonzero raised for arrays with more than one
 dimension

---
 src/microjax/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microjax/utils.py b/src/microjax/utils.py
index fffbdcc..aa8b0a6 100644
--- a/src/microjax/utils.py
+++ b/src/microjax/utils.py
@@ -94,11 +94,11 @@ def last_nonzero(x: Array, axis: int = 0) -> Array:
         Index of the last non-zero entry. If all entries are zero the result is
         ``0``.
     """
-    return lax.cond(
-        jnp.any(x, axis=axis),  # if any non-zero
-        lambda: (x.shape[axis] - 1)
+    return jnp.where(
+        jnp.any(x != 0, axis=axis),
+        (x.shape[axis] - 1)
         - jnp.argmax(jnp.flip(x, axis=axis) != 0, axis=axis),
-        lambda: 0,
+        0,
     )
 
 
-- 
2.43.0


From 7c4d8f4bca1f1da853b2e5fa522fbdd7f7087755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 26/27] fix: derivative of the limb-darkened profile with
 respect to u1 had the wrong sign in its normalisation

---
 src/microjax/inverse_ray/limb_darkening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/limb_darkening.py b/src/microjax/inverse_ray/limb_darkening.py
index 13db5ce..0cd4195 100644
--- a/src/microjax/inverse_ray/limb_darkening.py
+++ b/src/microjax/inverse_ray/limb_darkening.py
@@ -41,7 +41,7 @@ def Is_limb_1st_jvp(primals, tangents):
     fac = 100.0
     mu = jnp.sqrt(jnp.maximum(1e-3, 1.0 - d**2))
     I0 = 3.0 / jnp.pi / (3.0 - u1)
-    dI0_du1 = -3.0 / jnp.pi / (3.0 - u1)**2
+    dI0_du1 = 3.0 / jnp.pi / (3.0 - u1)**2
     prof = 1.0 - u1 * (1.0 - mu)
     dprof_du1 = - (1.0 - mu)
     dprof_dmu = u1
-- 
2.43.0


From b366b9a5278cf17f7458cf747ea431c85caf2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 27/27] fix: relative guard against a vanishing Ehrlich-Aberth
 denominator

The guard compared the denominator with an absolute threshold, so polynomials whose
roots (or coefficients) are small fell back to plain Newton steps without repulsion
and several estimates converged to the same root.
---
 src/microjax/poly_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index f319960..66242bf 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -145,7 +145,7 @@ def _ea_step(
     s = jnp.sum(inv_diffs, axis=1)
     # Denominator stabilization: if nearly zero, fall back to Newton step
     den = fp - f * s
-    den = jnp.where(jnp.abs(den) < eps, fp, den)
+    den = jnp.where(jnp.abs(den) < eps * jnp.abs(fp), fp, den)
     update = f / den
     new_roots = roots - update
     return new_roots, update
-- 
2.43.0

