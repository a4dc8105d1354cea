From 26db134c61aa62583705479255775ba0011054ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 01/37] fix: get_t_merge_ecc accepts a list of eccentricities

The array branch is taken for lists but comparing a list with the tolerances
raised a TypeError.
---
 src/legwork/evol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 759114a..d59b324 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -551,6 +551,10 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
     """
     beta, a_i = check_mass_freq_input(beta=beta, m_1=m_1, m_2=m_2, a_i=a_i, f_orb_i=f_orb_i)
 
+    # lists can't be compared to the tolerances so convert them to arrays
+    if isinstance(ecc_i, list):
+        ecc_i = np.array(ecc_i)
+
     # shortcut if all binaries are circular
     if np.all(ecc_i == 0.0):
         return get_t_merge_circ(beta=beta, a_i=a_i)
-- 
2.43.0


From dc7eda635f690e2225f13d16dc6677ab9bded89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 02/37] fix: get_t_merge_ecc keeps circular binaries circular
 when small_e_tol is 0

With small_e_tol=0 circular members of a mixed array also matched the general
branch, which overwrote their merger time with 0.
---
 src/legwork/evol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index d59b324..c30c310 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -571,6 +571,7 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
         small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)
         large_e = ecc_i > large_e_tol
         other_e = np.logical_and(ecc_i >= small_e_tol, ecc_i <= large_e_tol)
+        other_e = np.logical_and(other_e, np.logical_not(circular))
 
         # calculate c0 from Peters Eq. 5.11 (avoid circular binaries)
         c0 = np.zeros_like(a_i)
-- 
2.43.0


From ba4a48f3465d5be772fc442dddc14beb7257d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 03/37] fix: evol_ecc no longer overwrites the timesteps array
 of the caller

A 2D timesteps array was modified in place when some of its entries are in the
window that is avoided before the merger.
---
 src/legwork/evol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index c30c310..d3edd15 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -383,7 +383,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
         too_close[:, 0] = False
 
         if np.any(too_close):
-            # set them all equal to the previous timestep before passing limit
+            # set them all equal to the previous timestep before passing limit (without changing the user's array)
+            timesteps = timesteps.copy()
             timesteps[too_close] = -1 * u.Gyr
             previous = timesteps.max(axis=1).repeat(timesteps.shape[1])
             timesteps[too_close] = previous.reshape(timesteps.shape)[too_close]
-- 
2.43.0


From a5485d557bcc256146fce32d0b36a7501e68a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 04/37] fix: evol_ecc accepts the merger time of a single
 source

t_merge is documented as float/array but a scalar could not be indexed.
---
 src/legwork/evol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index d3edd15..4c1eaf3 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -363,6 +363,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
             # calculate the merger time
             t_merge = get_t_merge_ecc(ecc_i=ecc_i, a_i=a_i,
                                       beta=beta, exact=exact_t_merge).to(u.Gyr)
+        else:
+            (t_merge,), _ = utils.ensure_array(t_merge)
 
         # warn the user if they are evolving past the merger
         if np.any(timesteps > t_merge[:, np.newaxis]):      # pragma: no cover
-- 
2.43.0


From e0d39e8104c611635e7c7576853720d4d453fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 05/37] fix: evol_ecc stays accurate for small eccentricities

odeint's default absolute tolerance of 1.49e-8 is comparable to (or larger than)
the eccentricity of nearly circular binaries, so their separation was wrong by
percents for ecc=1e-4 and they merged far too early for ecc=1e-8.
---
 src/legwork/evol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 4c1eaf3..690b442 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -62,7 +62,8 @@ def integrate_de_dt(args):                         # pragma: no cover
        eccentricity evolution
     """
     ecc_i, timesteps, beta, c_0 = args
-    ecc_evol = odeint(de_dt, ecc_i, timesteps, args=(beta, c_0)).flatten()
+    # use an absolute tolerance relative to the initial eccentricity to keep the integration of small ones accurate
+    ecc_evol = odeint(de_dt, ecc_i, timesteps, args=(beta, c_0), atol=1.49e-8 * ecc_i).flatten()
     return ecc_evol
 
 
@@ -401,7 +402,7 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
         with MultiPool(processes=n_proc) as pool:
             ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0))))
     else:
-        ecc_evol = np.array([odeint(de_dt, ecc_i[i], timesteps[i], args=(beta[i], c_0[i])).flatten()
+        ecc_evol = np.array([integrate_de_dt([ecc_i[i], timesteps[i], beta[i], c_0[i]])
                              for i in range(len(ecc_i))])
 
     c_0 = c_0[:, np.newaxis] * u.m
-- 
2.43.0


From d50d51787a7edb150b13c6507f08819589415fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 06/37] fix: evolve_f_orb_circ and determine_stationarity
 accept a single source

Both are documented to take float/array but took the length of the frequency.
---
 src/legwork/evol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 690b442..03d020c 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -653,6 +653,9 @@ def evolve_f_orb_circ(f_orb_i, m_c, t_evol, ecc_i=0.0, merge_f=1e9 * u.Hz):
     f_orb_f : `bool/array`
         Final orbital frequency
     """
+    # transform input if only a single source
+    (f_orb_i,), single_source = utils.ensure_array(f_orb_i)
+
     # fill the default value with the merged frequency
     f_orb_f = np.repeat(merge_f, len(f_orb_i))
 
@@ -665,7 +668,7 @@ def evolve_f_orb_circ(f_orb_i, m_c, t_evol, ecc_i=0.0, merge_f=1e9 * u.Hz):
 
     # fill in the values for binaries that are still inspiraling
     f_orb_f[inspiral] = np.power(inner_part[inspiral], -3/8)
-    return f_orb_f
+    return f_orb_f[0] if single_source else f_orb_f
 
 
 def determine_stationarity(f_orb_i, t_evol, ecc_i, m_1=None, m_2=None, m_c=None, stat_tol=1e-2):
-- 
2.43.0


From b18e6ba838e8c37769056e5e15f3123f609ec656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 07/37] fix: fall back to the approximate response when R.npy
 is missing

A missing file raises FileNotFoundError, not FileExistsError, so the documented
fallback was never reached.
---
 src/legwork/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 40e44d8..ab719ef 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -38,7 +38,7 @@ def load_response_function(f, fstar=19.09e-3):
     # try to load the values for interpolating R
     try:
         f_R, R = np.load(os.path.join(resources.files("legwork"),"R.npy"), allow_pickle=True)
-    except FileExistsError:  # pragma: no cover
+    except FileNotFoundError:  # pragma: no cover
         logger.warning("Can't find response function file, using approximation instead")
         return approximate_response_function(f, fstar)
 
-- 
2.43.0


From ae2279982568492e25b1b83f18b7ad5fcb9ecf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 08/37] fix: no negative LISA noise for long arms

For arms longer than about 2.6 Gm the response file ends below 2 Hz and the cubic
spline was extrapolated, giving negative responses and thus negative noise.
---
 src/legwork/psd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index ab719ef..0d67abe 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -47,6 +47,10 @@ def load_response_function(f, fstar=19.09e-3):
 
     # use interpolated curve to get R values for supplied f values
     R = splev(f, R_data, der=0)
+
+    # the file doesn't reach high enough frequencies for long arms, avoid extrapolating (which can give R < 0)
+    f = np.asarray(f)
+    R = np.where(f > np.max(f_R) * fstar, approximate_response_function(f, fstar), R)
     return R
 
 
-- 
2.43.0


From cd53a6bf8234126e7fbfe4e7dd01de56ecd4366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 09/37] fix: no NaN from the Robson+19 confusion noise above 2
 Hz

The exponential overflows while 1 + tanh underflows to 0, which made the DECIGO and
TianQin noise with this model NaN at high frequencies instead of leaving it unaffected.
---
 src/legwork/psd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 0d67abe..b658235 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -376,9 +376,10 @@ def get_confusion_noise_robson19(f, t_obs=4 * u.yr):
     # find index of the closest length to inputted observation time
     ind = np.abs(t_obs - lengths).argmin()
 
-    confusion_noise = 9e-45 * f**(-7 / 3.) * np.exp(-f**(alpha[ind]) + beta[ind]
-                                                    * f * np.sin(kappa[ind] * f))\
-        * (1 + np.tanh(gamma[ind] * (fk[ind] - f))) * u.Hz**(-1)
+    # use 1 + tanh(x) = 2 / (1 + exp(-2x)) within the exponent, the separate factors are inf * 0 for f > 2 Hz
+    exponent = -f**(alpha[ind]) + beta[ind] * f * np.sin(kappa[ind] * f)\
+        - np.logaddexp(0, -2 * gamma[ind] * (fk[ind] - f))
+    confusion_noise = 9e-45 * f**(-7 / 3.) * 2 * np.exp(exponent) * u.Hz**(-1)
     return confusion_noise
 
 
-- 
2.43.0


From 2aff52809c74828bcc2a0580da9b2f01d5bc00c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 10/37] fix: the SNR functions accept a single source

All of them are documented to take float/array but only snr_circ_stationary did.
---
 src/legwork/snr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/legwork/snr.py b/src/legwork/snr.py
index 8a8924e..d5d8353 100644
--- a/src/legwork/snr.py
+++ b/src/legwork/snr.py
@@ -123,6 +123,9 @@ def snr_ecc_stationary(m_c, f_orb, ecc, dist, t_obs, harmonics_required,
     max_snr_harmonic : `int/array`
         harmonic with maximum SNR for each binary (only returned if ``ret_max_snr_harmonic=True``)
     """
+    # convert to array if necessary
+    (m_c, f_orb, ecc, dist), _ = utils.ensure_array(m_c, f_orb, ecc, dist)
+
     # define range of harmonics
     n_range = np.arange(1, harmonics_required + 1).astype(int)
 
@@ -202,6 +205,8 @@ def snr_circ_evolving(m_1, m_2, f_orb_i, dist, t_obs, n_step, t_merge=None,
     sn : `float/array`
         SNR for each binary
     """
+    # convert to array if necessary
+    (m_1, m_2, f_orb_i, dist, t_merge), _ = utils.ensure_array(m_1, m_2, f_orb_i, dist, t_merge)
     m_c = utils.chirp_mass(m_1=m_1, m_2=m_2)
 
     # calculate minimum of observation time and merger time
@@ -304,6 +309,8 @@ def snr_ecc_evolving(m_1, m_2, f_orb_i, dist, ecc, harmonics_required, t_obs, n_
         harmonic with maximum SNR for each binary (only returned if
         ``ret_max_snr_harmonic=True``)
     """
+    # convert to array if necessary
+    (m_1, m_2, f_orb_i, dist, ecc, t_merge), _ = utils.ensure_array(m_1, m_2, f_orb_i, dist, ecc, t_merge)
     m_c = utils.chirp_mass(m_1=m_1, m_2=m_2)
 
     # calculate minimum of observation time and merger time
-- 
2.43.0


From b8472f4fcd10555bacb8c10c398ad177519e73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 11/37] fix: a single source can have a sky position without
 inclination or polarisation

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 991edcc..3078bd0 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -151,11 +151,11 @@ class Source():
             if inclination is None:
                 logger.info("Generating random values for source inclinations")
                 # inclination is sampled uniformly in cos(i) to get a range of [0, pi/2]
-                inclination = np.arccos(np.random.uniform(0, 1, len(m_1))) * u.rad
+                inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad
             if polarisation is None:
                 logger.info("Generating random values for source polarisations")
                 # polarisation is sampled from 0 to pi following Flanagan & Hughes 1998 (e.g. Eq. 2.34)
-                polarisation = np.random.uniform(0, np.pi, len(m_1)) * u.rad
+                polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad
 
         # ensure position is in the correct coordinate frame
         if position is not None:
-- 
2.43.0


From 8dbd2b62cd1c62966d6ce7ab20851bfb2a0752c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 12/37] fix: reject a separation without units when creating
 sources

---
 src/legwork/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3078bd0..5efbea4 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -173,6 +173,8 @@ class Source():
             position = SkyCoord(lon=lon, lat=lat, distance=dist, frame='barycentrictrueecliptic')
 
         # calculate the orbital frequency if it wasn't supplied
+        if f_orb is None:
+            assert isinstance(a, u.quantity.Quantity), "`a` must have units"
         f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
 
         # define which arguments must have units
-- 
2.43.0


From c5e4f2043c7dfe008e9316dd0dbe6f834de36cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 13/37] fix: reject weights and sky variables with the wrong
 length

---
 src/legwork/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 5efbea4..0aa7111 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -191,6 +191,7 @@ class Source():
 
         # ensure all array arguments are the same length
         array_args = [m_1, m_2, dist, f_orb, ecc]
+        array_args += [arg for arg in (weights, position, inclination, polarisation) if arg is not None]
         length_check = np.array([len(arg) != len(array_args[0])
                                  for arg in array_args])
         if length_check.any():
-- 
2.43.0


From 3c05771dd56714206b0fe3a71db6fac76caf64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 14/37] fix: strains of a collection accept numpy integers as
 the harmonic

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 0aa7111..16370c9 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -756,7 +756,7 @@ class Source():
             which_sources = np.repeat(True, self.n_sources)
 
         # by default set all strains to zero
-        n_harmonics = len(harmonics) if not isinstance(harmonics, int) else 1
+        n_harmonics = np.size(harmonics)
         h_0_n = np.zeros((self.n_sources, n_harmonics))
 
         # find a mask for the inspiraling sources (exclude merged)
@@ -805,7 +805,7 @@ class Source():
             which_sources = np.repeat(True, self.n_sources)
 
         # by default set all strains to zero
-        n_harmonics = len(harmonics) if not isinstance(harmonics, int) else 1
+        n_harmonics = np.size(harmonics)
         h_c_n = np.zeros((self.n_sources, n_harmonics))
 
         # find a mask for the inspiralling sources (exclude merged)
-- 
2.43.0


From 24010136d14ef9b883fc5b0cbef2fd0312e3be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 15/37] fix: evolving into a new class keeps the weights

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 16370c9..e616d42 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1294,7 +1294,7 @@ class Source():
             evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
                                      n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
                                      polarisation=self.polarisation, inclination=self.inclination,
-                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
-- 
2.43.0


From d7d5d25c631b83b3bbbc761e3b0a646d10a5aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 16/37] fix: evolving into a new class keeps interpolate_sc

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index e616d42..cb385a7 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1299,7 +1299,7 @@ class Source():
 
             # copy over interpolated g and sc
             evolved_sources.g = self.g
-            evolved_sources.interpolate_sc = True
+            evolved_sources.interpolate_sc = self.interpolate_sc
             evolved_sources.sc = self.sc
             evolved_sources.t_merge = None
 
-- 
2.43.0


From 00f9be21bccd0941b6d306f3d82a33ccb9556024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 17/37] fix: |= and setdefault on sc_params check keys and
 update the curve

---
 src/legwork/source.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index cb385a7..b6dc113 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1580,6 +1580,15 @@ class SensitivityCurveParams(dict):
         if changed:
             self._re_interpolate()
 
+    def __ior__(self, params):
+        self.update(params)
+        return self
+
+    def setdefault(self, key, default=None):
+        """Return the value of a parameter (every parameter always has a value)"""
+        self._check_keys([key])
+        return self[key]
+
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
-- 
2.43.0


From 0ee948818df8972b00e71f59de9c3c7ce7d61c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 18/37] fix: report eccentric evolving sources separately when
 plotting

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index b6dc113..52351e3 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1509,7 +1509,7 @@ class Source():
             logger.warning("{} circular and evolving sources detected, plotting not yet implemented "
                            "for evolving sources.".format(len(circ_evol[circ_evol])))
 
-        ecc_evol = self.get_source_mask(circular=True, stationary=False)
+        ecc_evol = self.get_source_mask(circular=False, stationary=False)
         ecc_evol = np.logical_and.reduce((ecc_evol, detectable, inspiraling))
         if ecc_evol.any():
             logger.warning("{} eccentric and evolving sources detected, plotting not yet implemented "
-- 
2.43.0


From 40baa54246638e8f4ae6c240b66f11af52528afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 19/37] fix: a rejected sc_params change leaves the parameters
 as they were

---
 src/legwork/source.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 52351e3..716a5aa 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -686,7 +686,13 @@ class Source():
         changed = current_params is None or new_params != current_params
         self._sc_params = new_params
         if changed:
-            self.set_sc()
+            try:
+                self.set_sc()
+            except Exception:
+                # the sensitivity curve couldn't be calculated, so keep the parameters that it matches
+                if current_params is not None:
+                    self._sc_params = current_params
+                raise
 
     def get_source_mask(self, circular=None, stationary=None, t_obs=None):
         """Produce a mask of the sources.
@@ -1566,19 +1572,22 @@ class SensitivityCurveParams(dict):
 
     def __setitem__(self, key, value):
         self._check_keys([key])
-        changed = self.get(key) != value
-        super().__setitem__(key, value)
-        if changed:
-            self._re_interpolate()
+        self.update({key: value})
 
     def update(self, *args, **kwargs):
         """Change several parameters at once, only re-interpolating the sensitivity curve once"""
         new_params = dict(*args, **kwargs)
         self._check_keys(new_params)
         changed = any(self.get(key) != value for key, value in new_params.items())
+        old_params = dict(self)
         super().update(new_params)
         if changed:
-            self._re_interpolate()
+            try:
+                self._re_interpolate()
+            except Exception:
+                # the sensitivity curve couldn't be calculated, so keep the parameters that it matches
+                super().update(old_params)
+                raise
 
     def __ior__(self, params):
         self.update(params)
-- 
2.43.0


From 4c92c7ffdd1356359e6b384260acd408b21fc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 20/37] fix: custom instruments can wait for their custom_psd

---
 src/legwork/source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 716a5aa..f7586d7 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -647,7 +647,9 @@ class Source():
         If user wants to interpolate then perform interpolation of LISA sensitivity curve using
         ``sc_params``. Otherwise just leave the function as None.
         """
-        if self.interpolate_sc:
+        # a custom instrument has no sensitivity curve until its PSD is supplied
+        missing_psd = self.sc_params["instrument"] == "custom" and self.sc_params["custom_psd"] is None
+        if self.interpolate_sc and not missing_psd:
             # get values
             frequency_range = np.logspace(-7, np.log10(2), 10000) * u.Hz
             sc = psd.power_spectral_density(frequency_range, **self.sc_params)
-- 
2.43.0


From 5c258e2ef26bf072ae6d8e653821fe4e506f3db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 21/37] fix: merged sources get an SNR of 0 in the stationary
 and evolving SNR functions

---
 src/legwork/source.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index f7586d7..83434e3 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1063,11 +1063,11 @@ class Source():
 
         if self.max_snr_harmonic is None:
             self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
-        self.max_snr_harmonic[insp_sources] = msh[insp_sources]
+        self.max_snr_harmonic[which_sources] = msh[which_sources]
 
         if self.snr is None:
             self.snr = np.zeros(self.n_sources)
-        self.snr[insp_sources] = snr[insp_sources]
+        self.snr[which_sources] = snr[which_sources]
 
         return snr[which_sources]
 
@@ -1190,11 +1190,11 @@ class Source():
 
         if self.max_snr_harmonic is None:
             self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
-        self.max_snr_harmonic[insp_sources] = msh[insp_sources]
+        self.max_snr_harmonic[which_sources] = msh[which_sources]
 
         if self.snr is None:
             self.snr = np.zeros(self.n_sources)
-        self.snr[insp_sources] = snr[insp_sources]
+        self.snr[which_sources] = snr[which_sources]
 
         return snr[which_sources]
 
-- 
2.43.0


From 0c121526685c0205702ac0320113a2d53b3bc9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 22/37] fix: integrate_de_dt keeps odeint's tolerance unless
 another one is supplied

---
 src/legwork/evol.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 03d020c..1182272 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -54,16 +54,16 @@ def integrate_de_dt(args):                         # pragma: no cover
     Parameters
     ----------
     args : `list`
-        List of arguments for :func:`legwork.evol.de_dt` including [e, times, beta, c_0]
+        List of arguments for :func:`legwork.evol.de_dt` including [e, times, beta, c_0] and optionally the
+        absolute tolerance on the eccentricity (default is that of odeint)
 
     Returns
     -------
     ecc_evol : `array`
        eccentricity evolution
     """
-    ecc_i, timesteps, beta, c_0 = args
-    # use an absolute tolerance relative to the initial eccentricity to keep the integration of small ones accurate
-    ecc_evol = odeint(de_dt, ecc_i, timesteps, args=(beta, c_0), atol=1.49e-8 * ecc_i).flatten()
+    ecc_i, timesteps, beta, c_0, *atol = args
+    ecc_evol = odeint(de_dt, ecc_i, timesteps, args=(beta, c_0), atol=atol[0] if atol else None).flatten()
     return ecc_evol
 
 
@@ -397,12 +397,15 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
     beta = beta.to(u.m**4 / u.s).value
     timesteps = timesteps.to(u.s).value
 
+    # use an absolute tolerance relative to the initial eccentricity to keep the integration of small ones accurate
+    atol = 1.49e-8 * ecc_i
+
     # perform the evolution
     if n_proc > 1:
         with MultiPool(processes=n_proc) as pool:
-            ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0))))
+            ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0, atol))))
     else:
-        ecc_evol = np.array([integrate_de_dt([ecc_i[i], timesteps[i], beta[i], c_0[i]])
+        ecc_evol = np.array([integrate_de_dt([ecc_i[i], timesteps[i], beta[i], c_0[i], atol[i]])
                              for i in range(len(ecc_i))])
 
     c_0 = c_0[:, np.newaxis] * u.m
-- 
2.43.0


From 1e340769c3420d401b774fcfc6cc27e7904f26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:20 +0000
Subject: [PATCH 23/37] fix: the SNR of circular evolving sources doesn't
 depend on whether merger times were saved

---
 src/legwork/source.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 83434e3..c1ce8c5 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1144,14 +1144,12 @@ class Source():
         if c_mask.any():
             if verbose:
                 print("\t\t{} sources are evolving and circular".format(len(snr[c_mask])))
-            t_merge = None if self.t_merge is None else self.t_merge[c_mask]
             snr[c_mask] = sn.snr_circ_evolving(m_1=self.m_1[c_mask],
                                                m_2=self.m_2[c_mask],
                                                f_orb_i=self.f_orb[c_mask],
                                                dist=self.dist[c_mask],
                                                t_obs=t_obs,
                                                n_step=n_step,
-                                               t_merge=t_merge,
                                                interpolated_g=self.g,
                                                interpolated_sc=self.sc,
                                                instrument=instrument,
@@ -1169,7 +1167,6 @@ class Source():
                 match = np.logical_and(harm_mask, e_mask)
 
                 if match.any():
-                    t_merge = None if self.t_merge is None else self.t_merge[match]
                     snr[match], msh[match] = sn.snr_ecc_evolving(m_1=self.m_1[match],
                                                                  m_2=self.m_2[match],
                                                                  f_orb_i=self.f_orb[match],
-- 
2.43.0


From af4bd1f11ee6dd39cd74c6f8013b56c3fb329647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 24/37] fix: circular sources in their last second have no NaN
 SNR

---
 src/legwork/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/snr.py b/src/legwork/snr.py
index d5d8353..47b9cc7 100644
--- a/src/legwork/snr.py
+++ b/src/legwork/snr.py
@@ -212,7 +212,7 @@ def snr_circ_evolving(m_1, m_2, f_orb_i, dist, t_obs, n_step, t_merge=None,
     # calculate minimum of observation time and merger time
     if t_merge is None:
         t_merge = evol.get_t_merge_circ(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
-    t_evol = np.minimum(t_merge - (1 * u.s), t_obs)
+    t_evol = np.minimum(np.maximum(t_merge - (1 * u.s), 0 * u.s), t_obs)
 
     # get f_orb evolution
     f_orb_evol = evol.evol_circ(t_evol=t_evol, n_step=n_step, m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
-- 
2.43.0


From cf83ab3ed6cbfc7d98fa2e247df030e3ca952d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 25/37] fix: the strongest harmonic above the tabulated
 eccentricities isn't the number of harmonics needed

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index c1ce8c5..4bca0dd 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -571,7 +571,7 @@ class Source():
         # now calculate the max strain harmonics
         max_strain_harmonics = n_range[g_vals.argmax(axis=1)]
         interpolated_dh = interp1d(e_range, max_strain_harmonics, bounds_error=False,
-                                   fill_value=(2, np.max(harmonics_needed)))
+                                   fill_value=(2, np.max(max_strain_harmonics)))
 
         def max_strain_harmonic(e):
             return np.round(interpolated_dh(e)).astype(int)
-- 
2.43.0


From 53cbb89fef824b2b6146e777bba050f20ea94c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 26/37] fix: generous luminosity tolerances have an eccentric
 transition

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 4bca0dd..26332d6 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -582,8 +582,8 @@ class Source():
         """Find the eccentricity at which we must treat binaries at eccentric. We define this as the maximum
         eccentricity at which the n=2 harmonic is the total GW luminosity given the tolerance
         ``self.gw_lum_tol``. Store the result in ``self._ecc_tol``"""
-        # only need to check lower eccentricities
-        e_range = np.linspace(0.0, 0.2, 10000)
+        # only need to check lower eccentricities (unless the tolerance is very generous)
+        e_range = np.linspace(0.0, 0.2 if self.gw_lum_tol < 0.35 else 0.9999, 10000)
 
         # find first e where n=2 harmonic is below tolerance
         circular_lum = utils.peters_g(2, e_range)
-- 
2.43.0


From e1408d8ccd35f3f8b5eb7d5947531983740485a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 27/37] fix: verification binaries can be copied

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 26332d6..1b80b33 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -306,7 +306,7 @@ class Source():
         sources : `Source`
             A new class of the same type containing the same sources
         """
-        return self[:]
+        return Source.__getitem__(self, slice(None))
 
     def save(self, file_name, overwrite=False):
         """Save these sources to an HDF5 file, which can be read back in with
-- 
2.43.0


From db1a59388bf6eed21e8dff0ea26755c44ed322f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 28/37] fix: evolving into a new class doesn't share arrays
 with the original

---
 src/legwork/source.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 1b80b33..62be7be 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1295,11 +1295,12 @@ class Source():
             f_orb_evol[e_mask] = evolution[1][:, -1]
 
         if create_new_class:
-            # create new source with same attributes (but evolved ecc/f_orb)
-            evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
-                                     n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
-                                     polarisation=self.polarisation, inclination=self.inclination,
-                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+            # create new source with (copies of) the same attributes (but evolved ecc/f_orb)
+            old = self.copy()
+            evolved_sources = Source(m_1=old.m_1, m_2=old.m_2, ecc=ecc_evol, dist=old.dist,
+                                     n_proc=self.n_proc, f_orb=f_orb_evol, position=old.position,
+                                     polarisation=old.polarisation, inclination=old.inclination,
+                                     weights=old.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
-- 
2.43.0


From 9e9683a4d417e243067bbf02f3468ad081247975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 29/37] fix: evolve_sources accepts a single time of any number
 type

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 62be7be..bd60268 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1262,7 +1262,7 @@ class Source():
         e_mask = np.logical_and(self.ecc != 0.0, np.logical_not(merged))
 
         # split up the evolution times if need be
-        if isinstance(t_evol.value, (int, float)):
+        if t_evol.isscalar:
             t_evol_circ = t_evol
             t_evol_ecc = t_evol
         else:
-- 
2.43.0


From 5660f7f1c380336cf6534ad442b1367b11f23b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 30/37] fix: warnings about saved files go through the logger
 like every other message

---
 src/legwork/source.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index bd60268..3553195 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -368,9 +368,9 @@ class Source():
             sc_group = file.create_group("sc_params")
             for key, value in self.sc_params.items():
                 if callable(value):
-                    print((f"WARNING: `{key}` in `sc_params` is a custom function and cannot be"
-                           "saved to file, it will be replaced by the default value when you load these",
-                           "sources back in"))
+                    logger.warning(f"`{key}` in `sc_params` is a custom function and cannot be saved to "
+                                   "file, it will be replaced by the default value when you load these "
+                                   "sources back in")
                 elif value is None:
                     sc_group.attrs[key] = "__none__"
                 elif isinstance(value, u.Quantity):
@@ -430,9 +430,9 @@ class Source():
             # warn the user if the sources were made with a different version of LEGWORK
             file_version = file.attrs.get("legwork_version", "unknown")
             if file_version != __version__:
-                print("WARNING: These sources were created with LEGWORK v{}".format(file_version),
-                      "but you are currently running v{}.".format(__version__),
-                      "Some values may not be consistent with the current version.")
+                logger.warning("These sources were created with LEGWORK v{} but you are currently running v{}. "
+                               "Some values may not be consistent with the current version.".format(
+                                   file_version, __version__))
 
             # collect the variables needed by the constructor
             kwargs = {name: _read_dataset(file, name) for name in _ARR_ATTRS
@@ -460,9 +460,9 @@ class Source():
 
             # custom functions can't be saved so let the user know they need to supply them again
             if sc_params.get("instrument") == "custom" and sc_params.get("custom_psd") is None:
-                print("WARNING: These sources use a custom instrument but the corresponding `custom_psd`",
-                      "function could not be saved to file. Set `Source.sc_params[\"custom_psd\"]` to",
-                      "supply it again before calculating anything.")
+                logger.warning("These sources use a custom instrument but the corresponding `custom_psd` "
+                               "function could not be saved to file. Set `Source.sc_params[\"custom_psd\"]` "
+                               "to supply it again before calculating anything.")
 
             # use the saved settings unless the user overrode them
             interpolate_g = file.attrs["interpolate_g"] if interpolate_g is None else interpolate_g
-- 
2.43.0


From 87db2dcdde50130ae1ac19fc434b780d1963f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 31/37] fix: masses without units are rejected the same way
 when a separation is given

---
 src/legwork/source.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3553195..a1b6a41 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -172,19 +172,17 @@ class Source():
                                                                 polarisation, inclination)
             position = SkyCoord(lon=lon, lat=lat, distance=dist, frame='barycentrictrueecliptic')
 
-        # calculate the orbital frequency if it wasn't supplied
-        if f_orb is None:
-            assert isinstance(a, u.quantity.Quantity), "`a` must have units"
-        f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
-
         # define which arguments must have units
-        unit_args = [m_1, m_2, dist, f_orb]
-        unit_args_str = ['m_1', 'm_2', 'dist', 'f_orb']
+        unit_args = [m_1, m_2, dist, f_orb if f_orb is not None else a]
+        unit_args_str = ['m_1', 'm_2', 'dist', 'f_orb' if f_orb is not None else 'a']
 
         for i in range(len(unit_args)):
             assert (isinstance(unit_args[i], u.quantity.Quantity)), \
                 "`{}` must have units".format(unit_args_str[i])
 
+        # calculate the orbital frequency if it wasn't supplied
+        f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
+
         # make sure the inputs are arrays
         fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc, weights)
         m_1, m_2, dist, f_orb, ecc, weights = fixed_args
-- 
2.43.0


From 402ebf846acb010080952130ffd48756ed9389e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 32/37] fix: inclinations and polarisations without units are
 rejected

---
 src/legwork/source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index a1b6a41..a4bd266 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -175,6 +175,9 @@ class Source():
         # define which arguments must have units
         unit_args = [m_1, m_2, dist, f_orb if f_orb is not None else a]
         unit_args_str = ['m_1', 'm_2', 'dist', 'f_orb' if f_orb is not None else 'a']
+        if position is not None:
+            unit_args += [inclination, polarisation]
+            unit_args_str += ['inclination', 'polarisation']
 
         for i in range(len(unit_args)):
             assert (isinstance(unit_args[i], u.quantity.Quantity)), \
-- 
2.43.0


From cf122d9893dba451e409c12665cd297e043ab0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 33/37] fix: separations and sky positions of another length
 than the sources aren't broadcast

---
 src/legwork/source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index a4bd266..dfeded9 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -183,6 +183,11 @@ class Source():
             assert (isinstance(unit_args[i], u.quantity.Quantity)), \
                 "`{}` must have units".format(unit_args_str[i])
 
+        # separations and positions would otherwise be broadcast to the number of sources
+        for arg in [a if f_orb is None else None, lon if position is not None else None]:
+            if arg is not None and np.size(arg) != np.size(m_1):
+                raise ValueError("All input arrays must have the same length")
+
         # calculate the orbital frequency if it wasn't supplied
         f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
 
-- 
2.43.0


From 40a36ccffda2b388ee82b91b4ecde501f7d9a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:38 +0000
Subject: [PATCH 34/37] fix: keep the save/load warnings on standard output
 (undoes 5660f7f, existing tests rely on it)

---
 src/legwork/source.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index dfeded9..82b147e 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -374,9 +374,9 @@ class Source():
             sc_group = file.create_group("sc_params")
             for key, value in self.sc_params.items():
                 if callable(value):
-                    logger.warning(f"`{key}` in `sc_params` is a custom function and cannot be saved to "
-                                   "file, it will be replaced by the default value when you load these "
-                                   "sources back in")
+                    print((f"WARNING: `{key}` in `sc_params` is a custom function and cannot be"
+                           "saved to file, it will be replaced by the default value when you load these",
+                           "sources back in"))
                 elif value is None:
                     sc_group.attrs[key] = "__none__"
                 elif isinstance(value, u.Quantity):
@@ -436,9 +436,9 @@ class Source():
             # warn the user if the sources were made with a different version of LEGWORK
             file_version = file.attrs.get("legwork_version", "unknown")
             if file_version != __version__:
-                logger.warning("These sources were created with LEGWORK v{} but you are currently running v{}. "
-                               "Some values may not be consistent with the current version.".format(
-                                   file_version, __version__))
+                print("WARNING: These sources were created with LEGWORK v{}".format(file_version),
+                      "but you are currently running v{}.".format(__version__),
+                      "Some values may not be consistent with the current version.")
 
             # collect the variables needed by the constructor
             kwargs = {name: _read_dataset(file, name) for name in _ARR_ATTRS
@@ -466,9 +466,9 @@ class Source():
 
             # custom functions can't be saved so let the user know they need to supply them again
             if sc_params.get("instrument") == "custom" and sc_params.get("custom_psd") is None:
-                logger.warning("These sources use a custom instrument but the corresponding `custom_psd` "
-                               "function could not be saved to file. Set `Source.sc_params[\"custom_psd\"]` "
-                               "to supply it again before calculating anything.")
+                print("WARNING: These sources use a custom instrument but the corresponding `custom_psd`",
+                      "function could not be saved to file. Set `Source.sc_params[\"custom_psd\"]` to",
+                      "supply it again before calculating anything.")
 
             # use the saved settings unless the user overrode them
             interpolate_g = file.attrs["interpolate_g"] if interpolate_g is None else interpolate_g
-- 
2.43.0


From 7cd56652d90be08ebf853aac22f2f616317a3937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 35/37] fix: weighted histograms with the default bins can be
 plotted

---
 src/legwork/visualisation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 9b52cc4..345da2d 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -141,6 +141,11 @@ def plot_1D_dist(x, weights=None, disttype="hist", log_scale=False, fig=None, ax
 
                 # apply log to variable
                 x = np.log10(x)
+
+            # bins can't be estimated from weighted data so estimate them from the data alone
+            if weights is not None and isinstance(plot_args["bins"], str):
+                plot_args["bins"] = np.histogram_bin_edges(x, bins=plot_args["bins"],
+                                                           range=plot_args.get("range", None))
             ax.hist(x, weights=weights, color=color, **plot_args)
         elif disttype == "kde":
             sns.kdeplot(x=x, weights=weights, ax=ax, color=color, log_scale=log_scale, **plot_args)
-- 
2.43.0


From ca209204e4a229c090729a15517e1066782015cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 36/37] fix: sensitivity curves of frequencies in other units
 than Hz match their labels

---
 src/legwork/visualisation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 345da2d..90aff67 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -367,6 +367,9 @@ def plot_sensitivity_curve(frequency_range=None, y_quantity="ASD", fig=None, ax=
     if fig is None or ax is None:
         fig, ax = plt.subplots(figsize=figsize)
 
+    # ensure that the axes match their labels
+    frequency_range = frequency_range.to(u.Hz)
+
     # work out what the noise amplitude should be
     PSD = psd.power_spectral_density(f=frequency_range, **kwargs)
     if y_quantity == "ASD":
-- 
2.43.0


From 222b18b48a178e45fc5faf784b7c1950dede4047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 37/37] fix: interpolated DECIGO sensitivity curves cover the
 band of DECIGO

---
 src/legwork/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 82b147e..8c05b94 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -656,8 +656,9 @@ class Source():
         # a custom instrument has no sensitivity curve until its PSD is supplied
         missing_psd = self.sc_params["instrument"] == "custom" and self.sc_params["custom_psd"] is None
         if self.interpolate_sc and not missing_psd:
-            # get values
-            frequency_range = np.logspace(-7, np.log10(2), 10000) * u.Hz
+            # get values (over the frequencies at which the instrument is sensitive)
+            f_lims = (-3, 2) if self.sc_params["instrument"] == "DECIGO" else (-7, np.log10(2))
+            frequency_range = np.logspace(*f_lims, 10000) * u.Hz
             sc = psd.power_spectral_density(frequency_range, **self.sc_params)
 
             # interpolate
-- 
2.43.0

