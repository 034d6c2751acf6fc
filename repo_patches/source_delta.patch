From 45f1f8095df8c8edcdb0a6535ddc48d6206d691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 001/117] fix: nodal corrections of o2 matched the compound ko2
 by substring

---
 pyTMD/arguments.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 8897342..aaa2134 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -772,7 +772,7 @@ def nodal(
             # Linear 3rd degree terms
             term1 = 0.1705*sinn - 0.0035*sin2n - 0.0176*sin2p
             term2 = 1.0 + 0.1705*cosn - 0.0035*cos2n - 0.0176*cos2p
-        elif c in ("l2'"):
+        elif c in ("l2'",):
             # Linear 3rd degree terms
             term1 = -0.2495*sinn
             term2 = 1.0 + 0.1315*cosn
@@ -809,42 +809,42 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('2k2'):
+        elif c in ('2k2',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('tk1'):
+        elif c in ('tk1',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]
             u[:,i] = -utmp[:,0]
             continue
-        elif c in ('2oop1'):
+        elif c in ('2oop1',):
             # compound tides calculated using recursion
             parents = ['oo1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('oq2'):
+        elif c in ('oq2',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('2oq1'):
+        elif c in ('2oq1',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2 * ftmp[:,1]
             u[:,i] = 2.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('ko2'):
+        elif c in ('ko2',):
             # compound tides calculated using recursion
             parents = ['o1','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -872,7 +872,7 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('kjq1'):
+        elif c in ('kjq1',):
             # compound tides calculated using recursion
             parents = ['k1','j1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 14ebb9c9b54374d9ccf09c4f5e8eb53134d42acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 002/117] fix: sign of the K2 nodal phase in the compound tides
 msk6 and snk6

---
 pyTMD/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index aaa2134..70eb866 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1051,14 +1051,14 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]**3
             u[:,i] = utmp[:,0] + 3.0*utmp[:,1]
             continue
-        elif c in ('mk4','nk4','mks2'):
+        elif c in ('mk4','nk4','mks2','msk6','snk6'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('msk2','2smk4','msk6','snk6'):
+        elif c in ('msk2','2smk4'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 010b31eee668910a5306317a8361c143f8d06d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 003/117] fix: nodal phase of the minor constituent 2q1 used
 the sine of 2N for the cosine

---
 pyTMD/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 70eb866..7ebbc2e 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -256,7 +256,7 @@ def minor_arguments(
     # nodal angle corrections for minor constituents
     u = np.zeros((nt, 20))
     u[:,0] = np.arctan2(0.189*sinn - 0.0058*sin2n,
-        1.0 + 0.189*cosn - 0.0058*sin2n)# 2Q1
+        1.0 + 0.189*cosn - 0.0058*cos2n)# 2Q1
     u[:,1] = u[:,0]# sigma1
     u[:,2] = u[:,0]# rho1
     u[:,3] = np.arctan2( 0.185*sinn, 1.0 + 0.185*cosn)# M12
-- 
2.43.0


From 5bf04f17c85f4e13eed5c10d37e126c6c170c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 004/117] fix: nodal corrections of 2(mn)8, 2(mn)k9 and m2(ks)2
 were never applied

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 7ebbc2e..7a3bd65 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -924,7 +924,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn):8','3msn10',
+        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn)8','3msn10',
                 '4ms10','2(mn)S10','4m2s12'):
             # compound tides calculated using recursion
             parents = ['m2']
@@ -1037,7 +1037,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('4mk9','3mnk9','2m2nk9','2(mn):k9','3nmk9','4msk11'):
+        elif c in ('4mk9','3mnk9','2m2nk9','2(mn)k9','3nmk9','4msk11'):
             # compound tides calculated using recursion
             parents = ['m2','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -1100,7 +1100,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('m2(ks):2',):
+        elif c in ('m2(ks)2',):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 759c4abc17ec6d00ff21c7c077ef0a61100aecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 005/117] fix: trailing zeros of Doodson numbers were dropped
 when converting to coefficients

---
 pyTMD/arguments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 7a3bd65..fbb51dd 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1620,8 +1620,11 @@ def _from_doodson_number(DO: str | float | np.ndarray, **kwargs):
     """
     # convert from Doodson number to Cartwright numbers
     # replace 10 with X and 11 with E (Doodson convention)
+    # pad both sides of the decimal point (trailing zeros are significant)
+    first, _, last = str(DO).partition('.')
+    digits = re.findall(r'\w', first.zfill(3) + last.ljust(3, '0'))
     coef = np.array([c.replace('X', '10').replace('E', '11')
-        for c in re.findall(r'\w', str(DO).zfill(7))], dtype=int)
+        for c in digits], dtype=int)
     # remove 5 from values following Doodson convention
     coef[1:] -= 5
     return coef
-- 
2.43.0


From c5d879aa4374ceb13bf429c934a96ec4f68e6d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 006/117] fix: extended Doodson letters aliased coefficients
 below -8

---
 pyTMD/arguments.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index fbb51dd..4850f0d 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1588,6 +1588,8 @@ def _to_extended_doodson(coef: list | np.ndarray, **kwargs):
     ----------
     coef: list or np.ndarray
         Doodson coefficients (Cartwright numbers) for constituent
+    raise_error: bool, default True
+        Raise exception if constituent is unsupported
 
     Returns
     -------
@@ -1601,6 +1603,11 @@ def _to_extended_doodson(coef: list | np.ndarray, **kwargs):
     # A - P = 1 to 15
     # R - Y = -8 to -1
     digits = 'RSTUVWXYZABCDEFGHIJKLMNOP'
+    # check for coefficients that cannot be represented
+    if np.any(coef < -8) or np.any(coef > 16):
+        if kwargs.get('raise_error', True):
+            raise ValueError('Unsupported constituent')
+        return None
     XDO = ''.join([digits[v+8] for v in coef])
     return np.str_(XDO)
 
-- 
2.43.0


From 04c15e20288df7cb716fc0c6684beb40a850c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 007/117] fix: FES nodal corrections of the inferred L2 mixed
 degrees and radians

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 4850f0d..2570c90 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -280,9 +280,9 @@ def minor_arguments(
         xi = np.arctan2(np.sin(xi), np.cos(xi))
         nu = at1 - at2
         I2 = np.tan(II/2.0)
-        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p - xi)) + 36.0*(I2**4))
-        P2 = np.sin(2.0*(p - xi))
-        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p - xi))
+        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p*dtr - xi)) + 36.0*(I2**4))
+        P2 = np.sin(2.0*(p*dtr - xi))
+        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p*dtr - xi))
         R = np.arctan(P2/Q2)
 
         # nodal factor corrections for minor constituents
-- 
2.43.0


From 7664916b07d0701510bd38a591ff46b4863fc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 008/117] fix: spherical harmonics had a spurious factor of the
 sine of colatitude

---
 pyTMD/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 3967821..19b610f 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -280,7 +280,7 @@ def sph_harm(
     Plm = norm*legendre(l, np.cos(theta), m=m)
     # spherical harmonics of degree l and order m
     dfactor = np.sqrt((2.0*l + 1.0)/(4.0*np.pi))
-    Ylm = dfactor*Plm*np.sin(theta)*np.exp(1j*m*phi)
+    Ylm = dfactor*Plm*np.exp(1j*m*phi)
     # return values
     if singular_values:
         return Ylm[0]
-- 
2.43.0


From 82e1af62406064e5c7baa71131e32b3405ca93ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 009/117] fix: sign of the l-M term in the approximate lunar
 longitude

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 41369f8..3d2b48f 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -563,7 +563,7 @@ def lunar_approximate(MJD, **kwargs):
         4586.0*np.sin(l - 2.0*D) + 2370.0*np.sin(2.0*D) -
         668.0*np.sin(M) - 412.0*np.sin(2.0*F) -
         212.0*np.sin(2.0*l - 2.0*D) - 206.0*np.sin(l + M - 2.0*D) +
-        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) -
+        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) +
         148.0*np.sin(l - M) - 125.0*np.sin(D) -
         110.0*np.sin(l + M) - 55.0*np.sin(2.0*F - 2.0*D)
     )
-- 
2.43.0


From 9531733a0051900a4189cbb4edb43661b961ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 010/117] fix: equation of the equinoxes was added in
 inconsistent units

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 3d2b48f..0df9bcc 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -661,7 +661,7 @@ def gast(T: float | np.ndarray):
     # traditional equation of the equinoxes
     c = _eqeq_complement(T)
     eqeq = dpsi*np.cos(epsilon + deps) + c
-    return np.mod(ts.st + eqeq/24.0, 1.0)
+    return np.mod(ts.st + eqeq/ts.tau, 1.0)
 
 def itrs(T: float | np.ndarray):
     """
-- 
2.43.0


From 666d52b768977debf761cad89e2dc893807450b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 011/117] fix: polar motion was applied in the celestial frame
 with opposite signs

---
 pyTMD/astro.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 0df9bcc..b73e515 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -694,12 +694,13 @@ def itrs(T: float | np.ndarray):
     # M1: precession
     # M2: nutation
     # M3: frame bias
-    # M4: polar motion
-    M = np.einsum('ijt...,jkt...,kl...,lmt...->imt...', M1, M2, M3, M4)
+    M = np.einsum('ijt...,jkt...,kl...->ilt...', M2, M1, M3)
     # compute the Greenwich Apparent Sidereal Time
     # use UT1 time as input to gast function
     GAST = rotate(ts.tau*gast(T), 'z')
-    R = np.einsum('ijt...,jkt->ikt...', GAST, M)
+    # rotate from the true equator and equinox of date and
+    # apply polar motion (M4) in the terrestrial frame
+    R = np.einsum('ijt...,jkt...,klt...->ilt...', M4, GAST, M)
     # return the combined rotation matrix
     return R
 
@@ -883,9 +884,10 @@ def _polar_motion_matrix(T: float | np.ndarray):
     sprime = -4.7e-5*T
     px, py = timescale.eop.iers_polar_motion(MJD)
     # calculate the rotation matrices
-    M1 = rotate(py*atr,'x')
-    M2 = rotate(px*atr,'y')
-    M3 = rotate(-sprime*atr,'z')
+    # from the terrestrial intermediate system to the ITRS
+    M1 = rotate(-py*atr,'x')
+    M2 = rotate(-px*atr,'y')
+    M3 = rotate(sprime*atr,'z')
     # calculate the combined rotation matrix
     return np.einsum('ij...,jk...,kl...->il...', M1, M2, M3)
 
-- 
2.43.0


From ab7f04a1a7c6ecfc2d8f34dddb7b4c73492cf4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 012/117] fix: OTIS predictions froze constituents without
 tabulated parameters

---
 pyTMD/predict.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 9ee04ac..96517df 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -151,7 +151,11 @@ def map(t: float | np.ndarray,
             amp, ph, omega, alpha, species = \
                 pyTMD.arguments._constituent_parameters(c)
             # add component for constituent to output tidal elevation
-            th = omega*t*86400.0 + ph + pu[0,k]
+            if (omega == 0.0):
+                # use equilibrium arguments if not a tabulated constituent
+                th = G[0,k]*np.pi/180.0 + pu[0,k]
+            else:
+                th = omega*t*86400.0 + ph + pu[0,k]
         else:
             th = G[0,k]*np.pi/180.0 + pu[0,k]
         # sum over all tides
@@ -211,7 +215,11 @@ def drift(t: float | np.ndarray,
             amp, ph, omega, alpha, species = \
                 pyTMD.arguments._constituent_parameters(c)
             # add component for constituent to output tidal elevation
-            th = omega*t*86400.0 + ph + pu[:,k]
+            if (omega == 0.0):
+                # use equilibrium arguments if not a tabulated constituent
+                th = G[:,k]*np.pi/180.0 + pu[:,k]
+            else:
+                th = omega*t*86400.0 + ph + pu[:,k]
         else:
             th = G[:,k]*np.pi/180.0 + pu[:,k]
         # sum over all tides
@@ -271,7 +279,11 @@ def time_series(t: float | np.ndarray,
             amp, ph, omega, alpha, species = \
                 pyTMD.arguments._constituent_parameters(c)
             # add component for constituent to output tidal time series
-            th = omega*t*86400.0 + ph + pu[:,k]
+            if (omega == 0.0):
+                # use equilibrium arguments if not a tabulated constituent
+                th = G[:,k]*np.pi/180.0 + pu[:,k]
+            else:
+                th = omega*t*86400.0 + ph + pu[:,k]
         else:
             th = G[:,k]*np.pi/180.0 + pu[:,k]
         # sum over all tides at location
-- 
2.43.0


From d057c9a77d53336f37de3b42a78cfa1211821f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 013/117] fix: first minor constituent could not be inferred on
 its own

---
 pyTMD/predict.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 96517df..a0d627c 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -428,7 +428,7 @@ def _infer_short_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -576,7 +576,7 @@ def _infer_semi_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -737,7 +737,7 @@ def _infer_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -890,7 +890,7 @@ def _infer_long_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
-- 
2.43.0


From f12db56ac94fde28b2ac9f920eb06204579d4031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 014/117] fix: supplied constituents in upper case were also
 inferred

---
 pyTMD/predict.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index a0d627c..9158340 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -424,8 +424,9 @@ def _infer_short_period(
     # possibly reduced list of minor constituents
     minor = kwargs['minor'] or minor_constituents
     # only add minor constituents that are not on the list of major values
+    major = [c.lower() for c in constituents]
     minor_indices = [i for i,m in enumerate(minor_constituents)
-        if (m not in constituents) and (m in minor)]
+        if (m not in major) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
     if not minor_indices:
@@ -572,8 +573,9 @@ def _infer_semi_diurnal(
     # possibly reduced list of minor constituents
     minor = kwargs['minor'] or minor_constituents
     # only add minor constituents that are not on the list of major values
+    major = [c.lower() for c in constituents]
     minor_indices = [i for i,m in enumerate(minor_constituents)
-        if (m not in constituents) and (m in minor)]
+        if (m not in major) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
     if not minor_indices:
@@ -733,8 +735,9 @@ def _infer_diurnal(
     # possibly reduced list of minor constituents
     minor = kwargs['minor'] or minor_constituents
     # only add minor constituents that are not on the list of major values
+    major = [c.lower() for c in constituents]
     minor_indices = [i for i,m in enumerate(minor_constituents)
-        if (m not in constituents) and (m in minor)]
+        if (m not in major) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
     if not minor_indices:
@@ -886,8 +889,9 @@ def _infer_long_period(
     # possibly reduced list of minor constituents
     minor = kwargs['minor'] or minor_constituents
     # only add minor constituents that are not on the list of major values
+    major = [c.lower() for c in constituents]
     minor_indices = [i for i,m in enumerate(minor_constituents)
-        if (m not in constituents) and (m in minor)]
+        if (m not in major) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
     if not minor_indices:
-- 
2.43.0


From eab09bb80bd603c61bb003e8f4a9f559a4a78dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 015/117] fix: infer_minor returned a float when nothing could
 be inferred

---
 pyTMD/predict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 9158340..ef97de3 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -336,8 +336,12 @@ def infer_minor(
     kwargs.setdefault('raise_exception', False)
     # list of minor constituents
     kwargs.setdefault('minor', None)
+    # number of data points to calculate if running time series/drift/map
+    npts, nc = np.shape(np.ma.atleast_2d(zmajor))
+    nt = len(np.atleast_1d(t))
+    n = nt if ((npts == 1) & (nt > 1)) else npts
     # infer the minor tidal constituents
-    dh = 0.0
+    dh = np.ma.zeros((n))
     # infer short-period tides for minor constituents
     if kwargs['corrections'] in ('GOT',):
         dh += _infer_semi_diurnal(t, zmajor, constituents, **kwargs)
-- 
2.43.0


From bd706c47eb6a7a115d36cf87fba3551eee790385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 016/117] fix: accept request types of any letter case in LPET,
 LPT, OPT and SET

---
 pyTMD/compute.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index bf54ce0..208a3cc 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -878,15 +878,15 @@ def LPET_elevations(
     tide_time = ts.tide + ts.tt_ut1
 
     # predict long-period equilibrium tides at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_lpe = np.zeros((ny,nx,nt))
         for i in range(nt):
             lpet = pyTMD.predict.equilibrium_tide(tide_time[i], lat)
             tide_lpe[:,:,i] = np.reshape(lpet,(ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         tide_lpe = pyTMD.predict.equilibrium_tide(tide_time, lat)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_lpe = np.zeros((nstation,nt))
         for s in range(nstation):
@@ -1031,7 +1031,7 @@ def LPT_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Srad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1051,7 +1051,7 @@ def LPT_displacements(
             # reshape to output dimensions
             Srad.data[:,:,i] = np.reshape(S[:,2], (ny,nx))
             Srad.mask[:,:,i] = np.isnan(Srad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate load pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.load_pole_tide(ts.tide, XYZ,
@@ -1068,7 +1068,7 @@ def LPT_displacements(
         Srad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Srad.data[:] = S[:,2].copy()
         Srad.mask = np.isnan(Srad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Srad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1253,7 +1253,7 @@ def OPT_displacements(
     UXYZ = np.einsum('ti...,tji...->tj...', np.c_[un, ue, ur], R)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Urad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1275,7 +1275,7 @@ def OPT_displacements(
             # reshape to output dimensions
             Urad.data[:,:,i] = np.reshape(U[:,2], (ny,nx))
             Urad.mask[:,:,i] = np.isnan(Urad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate ocean pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.ocean_pole_tide(ts.tide, XYZ, UXYZ,
@@ -1294,7 +1294,7 @@ def OPT_displacements(
         Urad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Urad.data[:] = U[:,2].copy()
         Urad.mask = np.isnan(Urad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Urad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1455,7 +1455,7 @@ def SET_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_se = np.zeros((ny,nx,nt))
         # convert coordinates to column arrays
@@ -1474,7 +1474,7 @@ def SET_displacements(
             SE = np.einsum('ti...,tji...->tj...', dxi, R)
             # reshape to output dimensions
             tide_se[:,:,i] = np.reshape(SE[:,2], (ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # convert coordinates to column arrays
         XYZ = np.c_[X, Y, Z]
         SXYZ = np.c_[SX, SY, SZ]
@@ -1487,7 +1487,7 @@ def SET_displacements(
         SE = np.einsum('ti...,tji...->tj...', dxi, R)
         # reshape to output dimensions
         tide_se = SE[:,2].copy()
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_se = np.zeros((nstation,nt))
         # convert coordinates to column arrays
-- 
2.43.0


From 0284794f2c157570bfb0ea7eb2b4922aacd016d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 017/117] fix: ocean pole tide coefficients for bilinear method
 and longitudes in 0 to 360

---
 pyTMD/io/IERS.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 1758510..8d5078e 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -92,6 +92,7 @@ def extract_coefficients(
 
             - ``'spline'``: scipy bivariate spline interpolation
             - ``'linear'``, ``'nearest'``: scipy regular grid interpolations
+            - ``'bilinear'``: equivalent to ``'linear'``
 
     Returns
     -------
@@ -105,6 +106,12 @@ def extract_coefficients(
     # default keyword arguments
     kwargs.setdefault('model_file', _ocean_pole_tide_file)
     kwargs.setdefault('method', 'spline')
+    # interpolation method (bilinear is linear interpolation on the grid)
+    method = kwargs['method'].lower()
+    method = 'linear' if (method == 'bilinear') else method
+    # adjust longitudinal convention to match map (-180:180)
+    lon = np.where((np.asarray(lon) < -180.0) | (np.asarray(lon) > 180.0),
+        np.mod(np.asarray(lon) + 180.0, 360.0) - 180.0, lon)
     # number of points
     npts = len(np.atleast_1d(lat))
     # read ocean pole tide map from Desai (2002)
@@ -112,7 +119,7 @@ def extract_coefficients(
     Umap['R'], Umap['N'], Umap['E'], ilon, ilat = read_binary_file(**kwargs)
     # interpolate ocean pole tide map from Desai (2002)
     Uint = {}
-    if (kwargs['method'] == 'spline'):
+    if (method == 'spline'):
         # use scipy bivariate splines to interpolate to output points
         for key,val in Umap.items():
             Uint[key] = np.zeros((npts), dtype=np.clongdouble)
@@ -127,7 +134,7 @@ def extract_coefficients(
         for key,val in Umap.items():
             Uint[key] = np.zeros((npts), dtype=np.clongdouble)
             r1 = scipy.interpolate.RegularGridInterpolator((ilon,ilat[::-1]),
-                val[:,::-1], bounds_error=False, method=kwargs['method'])
+                val[:,::-1], bounds_error=False, method=method)
             Uint[key][:] = r1.__call__(np.c_[lon, lat])
     # return the interpolated values
     return (Uint['R'], Uint['N'], Uint['E'])
-- 
2.43.0


From bd4a329c571e74700b4a62b08d2e6fb16815fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 018/117] fix: ocean pole tide map reaches the date line from
 both sides

---
 pyTMD/io/IERS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 8d5078e..19a92c8 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -209,7 +209,7 @@ def read_binary_file(**kwargs):
     # shift ocean pole tide grid to -180:180
     longitudes = np.copy(glon)
     for key, val in U.items():
-        U[key], glon = _shift(val, longitudes, lon0=180.0,
+        U[key], glon = _shift(val, longitudes, lon0=180.0+dlon/2.0,
             cyclic=360.0, direction='west')
     # extend matrix for bilinear interpolation
     glon = _extend_array(glon, dlon)
-- 
2.43.0


From 0a5fe611a5a11f3a4da1bf7f25231c77b1a84535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 019/117] fix: solid earth tides at stations on the polar axis

---
 pyTMD/predict.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index ef97de3..dc57d74 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -1424,8 +1424,9 @@ def _out_of_phase_diurnal(
     sinphi = XYZ[:,2]/radius
     cosphi = np.sqrt(XYZ[:,0]**2 + XYZ[:,1]**2)/radius
     cos2phi = cosphi**2 - sinphi**2
-    sinla = XYZ[:,1]/cosphi/radius
-    cosla = XYZ[:,0]/cosphi/radius
+    longitude = np.arctan2(XYZ[:,1], XYZ[:,0])
+    sinla = np.sin(longitude)
+    cosla = np.cos(longitude)
     # Compute the normalized position vector of the Sun/Moon
     solar_radius = np.sqrt(np.sum(SXYZ**2, axis=1))
     lunar_radius = np.sqrt(np.sum(LXYZ**2, axis=1))
@@ -1484,8 +1485,9 @@ def _out_of_phase_semidiurnal(
     radius = np.sqrt(np.sum(XYZ**2, axis=1))
     sinphi = XYZ[:,2]/radius
     cosphi = np.sqrt(XYZ[:,0]**2 + XYZ[:,1]**2)/radius
-    sinla = XYZ[:,1]/cosphi/radius
-    cosla = XYZ[:,0]/cosphi/radius
+    longitude = np.arctan2(XYZ[:,1], XYZ[:,0])
+    sinla = np.sin(longitude)
+    cosla = np.cos(longitude)
     cos2la = cosla**2 - sinla**2
     sin2la = 2.0*cosla*sinla
     # Compute the normalized position vector of the Sun/Moon
@@ -1552,8 +1554,9 @@ def _latitude_dependence(
     radius = np.sqrt(np.sum(XYZ**2, axis=1))
     sinphi = XYZ[:,2]/radius
     cosphi = np.sqrt(XYZ[:,0]**2 + XYZ[:,1]**2)/radius
-    sinla = XYZ[:,1]/cosphi/radius
-    cosla = XYZ[:,0]/cosphi/radius
+    longitude = np.arctan2(XYZ[:,1], XYZ[:,0])
+    sinla = np.sin(longitude)
+    cosla = np.cos(longitude)
     cos2la = cosla**2 - sinla**2
     sin2la = 2.0*cosla*sinla
     # Compute the normalized position vector of the Sun/Moon
@@ -1650,8 +1653,9 @@ def _frequency_dependence_diurnal(
     radius = np.sqrt(np.sum(XYZ**2, axis=1))
     sinphi = XYZ[:,2]/radius
     cosphi = np.sqrt(XYZ[:,0]**2 + XYZ[:,1]**2)/radius
-    sinla = XYZ[:,1]/cosphi/radius
-    cosla = XYZ[:,0]/cosphi/radius
+    longitude = np.arctan2(XYZ[:,1], XYZ[:,0])
+    sinla = np.sin(longitude)
+    cosla = np.cos(longitude)
     zla = np.arctan2(XYZ[:,1], XYZ[:,0])
     # compute corrections (Mathews et al. 1997)
     DX = np.zeros((nt))
@@ -1706,8 +1710,9 @@ def _frequency_dependence_long_period(
     radius = np.sqrt(np.sum(XYZ**2, axis=1))
     sinphi = XYZ[:,2]/radius
     cosphi = np.sqrt(XYZ[:,0]**2 + XYZ[:,1]**2)/radius
-    sinla = XYZ[:,1]/cosphi/radius
-    cosla = XYZ[:,0]/cosphi/radius
+    longitude = np.arctan2(XYZ[:,1], XYZ[:,0])
+    sinla = np.sin(longitude)
+    cosla = np.cos(longitude)
     # compute corrections (Mathews et al. 1997)
     DX = np.zeros((nt))
     DY = np.zeros((nt))
@@ -1748,8 +1753,9 @@ def _free_to_mean(
     radius = np.sqrt(np.sum(XYZ**2, axis=1))
     sinphi = XYZ[:,2]/radius
     cosphi = np.sqrt(XYZ[:,0]**2 + XYZ[:,1]**2)/radius
-    sinla = XYZ[:,1]/cosphi/radius
-    cosla = XYZ[:,0]/cosphi/radius
+    longitude = np.arctan2(XYZ[:,1], XYZ[:,0])
+    sinla = np.sin(longitude)
+    cosla = np.cos(longitude)
     # time-independent constituent of amplitude (Mathews et al. 1997)
     H0 = -0.31460
     # in Mathews et al. (1997): dR0=-0.1196 m with h2=0.6026
-- 
2.43.0


From 337b71f73a9d99fbdc4fc4e84f09de5895ae60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 020/117] fix: gridded solid earth tides used frequency
 corrections of the next day

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 208a3cc..c5e2a35 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -1462,7 +1462,7 @@ def SET_displacements(
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From 16ed014f5c2f1c89c01aab60da88355643de9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 021/117] fix: published defining parameters of the GRS80
 ellipsoid

---
 pyTMD/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index 3e3ba55..ea1c565 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -321,8 +321,8 @@ class datum:
         elif self.name in ('GRS80', 'NAD83'):
             # Geodetic Reference System 1980
             # North American Datum 1983
-            self.a_axis = 6378135.0# [m] semimajor axis of the ellipsoid
-            self.flat = 1.0/298.26# flattening of the ellipsoid
+            self.a_axis = 6378137.0# [m] semimajor axis of the ellipsoid
+            self.flat = 1.0/298.257222101# flattening of the ellipsoid
             self.GM = 3.986005e14# [m^3/s^2] Geocentric Gravitational Constant
 
         elif (self.name == 'GRS67'):
-- 
2.43.0


From 43606527767b6b69e7b5232cd9e739a585ef792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 022/117] fix: normal gravity ratio of the ellipsoid uses the
 equatorial gravity

---
 pyTMD/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index ea1c565..aba0ce1 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -580,7 +580,7 @@ class datum:
     def dk(self) -> float:
         """Ratio between gravity at pole versus gravity at equator
         """
-        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_b) - 1.0
+        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_a) - 1.0
 
     # Normal potential at the ellipsoid
     # p. 68, Eqn.(2-123)
-- 
2.43.0


From 1200c710d5540344f5572b74370dfa9f56bf763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 023/117] fix: sign of angles smaller than one degree in
 from_dms

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c39225b..40dddee 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1619,7 +1619,7 @@ def from_dms(
     d: np.ndarray
         decimal degrees
     """
-    sign = np.sign(degree)
+    sign = np.copysign(1.0, degree)
     d = np.abs(degree) + minute/60.0 + second/3600.0
     return sign*d
 
-- 
2.43.0


From 28ca2c84c5564a298cf32b0f1471a7e6b0b3795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 024/117] fix: closed-form geodetic coordinates of arrays that
 include a pole

---
 pyTMD/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 40dddee..a1a033e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1959,7 +1959,7 @@ def _zhu_closed_form(
         ind, = np.nonzero(w == 0)
         h[ind] = np.sign(z[ind])*z[ind] - b_axis
         lat[ind] = 90.0*np.sign(z[ind])
-    else:
+    if np.any(w != 0):
         # all other cases
         ind, = np.nonzero(w != 0)
         l = e12/2.0
@@ -1972,11 +1972,11 @@ def _zhu_closed_form(
         B = i/3.0 - (q + D)**(1.0/3.0) - (q - D)**(1.0/3.0)
         t = np.sqrt(np.sqrt(B**2-k) - (B + i)/2.0) - \
             np.sign(m - n)*np.sqrt((B - i)/2.0)
-        wi = w/(t + l)
+        wi = w[ind]/(t + l)
         zi = (1.0 - e12)*z[ind]/(t - l)
         # calculate latitude and height
         lat[ind] = np.arctan2(zi, ((1.0 - e12)*wi))/dtr
-        h[ind] = np.sign(t-1.0+l)*np.sqrt((w-wi)**2.0 + (z[ind]-zi)**2.0)
+        h[ind] = np.sign(t-1.0+l)*np.sqrt((w[ind]-wi)**2.0 + (z[ind]-zi)**2.0)
     # return longitude, latitude and height
     return (lon, lat, h)
 
-- 
2.43.0


From fa81e0ce6e0489d69ff35392cb704bbb9b86d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 025/117] fix: heights at and near the poles from the Moritz
 iteration

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index a1a033e..cd066a6 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1839,7 +1839,7 @@ def _moritz_iterative(
         # calculate radius of curvature
         N = a_axis/np.sqrt(1.0 - ecc1**2 * np.sin(phi)**2)
         # estimate new value of height
-        h = p/np.cos(phi) - N
+        h = p*np.cos(phi) + z*np.sin(phi) - a_axis**2/N
         # estimate new value for latitude using heights
         phi = np.arctan(z/(p*(1.0 - ecc1**2*N/(N + h))))
         # add to iterator
-- 
2.43.0


From ef15b0b401a8036b524f2562e80a61c62c5feee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 026/117] fix: latitude of the exact poles from the Bowring
 iteration

---
 pyTMD/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index cd066a6..6c983bd 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1893,8 +1893,8 @@ def _bowring_iterative(
     # initial estimated value for reduced parametric latitude
     u = np.arctan(a_axis*z/(b_axis*p))
     # initial estimated value for latitude
-    phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-        (p - e12*a_axis*np.cos(u)**3))
+    phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+        p - e12*a_axis*np.cos(u)**3)
     phi0 = np.inf*np.ones_like(lon)
     # iterate to tolerance or to maximum number of iterations
     i = 0
@@ -1904,8 +1904,8 @@ def _bowring_iterative(
         # calculate reduced parametric latitude
         u = np.arctan(b_axis*np.tan(phi)/a_axis)
         # estimate new value of latitude
-        phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-            (p - e12*a_axis*np.cos(u)**3))
+        phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+            p - e12*a_axis*np.cos(u)**3)
         # add to iterator
         i += 1
     # calculate final radius of curvature
-- 
2.43.0


From 560d64a4356143f96cb76224cf87ac1a129ec94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 027/117] fix: precision of spherical latitudes near the poles

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 6c983bd..9783f49 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1703,7 +1703,7 @@ def to_sphere(x: np.ndarray, y: np.ndarray, z: np.ndarray):
     # phi: azimuthal angle
     phi = np.arctan2(y, x)
     # th: polar angle
-    th = np.arccos(z/rad)
+    th = np.arctan2(np.sqrt(x**2.0 + y**2.0), z)
     # convert to degrees and fix to 0:360
     lon = 180.0*phi/np.pi
     if np.any(lon < 0):
-- 
2.43.0


From c57889283c42c2f0f0627758862167ddb27a7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 028/117] fix: convert_ellipsoid modified out of range input
 latitudes

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 9783f49..7265687 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1413,6 +1413,8 @@ def convert_ellipsoid(
     """
     if (len(phi1) != len(h1)):
         raise ValueError('phi and h have incompatible dimensions')
+    # copy latitudes to not modify inputs
+    phi1 = np.array(phi1, dtype=np.float64)
     # semiminor axis of input and output ellipsoid
     b1 = (1.0 - f1)*a1
     b2 = (1.0 - f2)*a2
-- 
2.43.0


From 2215fda0696d3e2a62dde6f35296df400736bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 029/117] fix: arrays of reference positions in to_ENU and
 from_ENU

---
 pyTMD/spatial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 7265687..812051a 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -2034,7 +2034,7 @@ def to_ENU(
     # convert latitude and longitude to ECEF
     X0, Y0, Z0 = to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
     # calculate the rotation matrix
-    R = np.zeros((3, 3))
+    R = np.zeros((3, 3, *np.shape(lon0)))
     R[0,0] = -np.sin(dtr*lon0)
     R[0,1] = np.cos(dtr*lon0)
     R[0,2] = 0.0
@@ -2045,7 +2045,8 @@ def to_ENU(
     R[2,1] = np.cos(dtr*lat0)*np.sin(dtr*lon0)
     R[2,2] = np.sin(dtr*lat0)
     # calculate the ENU coordinates
-    E, N, U = np.dot(R, np.vstack((x - X0, y - Y0, z - Z0)))
+    E, N, U = np.einsum('ij...,j...->i...', R,
+        np.array([x - X0, y - Y0, z - Z0]))
     # return the ENU coordinates
     # flattened to singular values if necessary
     if singular_values:
@@ -2105,7 +2106,7 @@ def from_ENU(
     # convert latitude and longitude to ECEF
     X0, Y0, Z0 = to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
     # calculate the rotation matrix
-    R = np.zeros((3, 3))
+    R = np.zeros((3, 3, *np.shape(lon0)))
     R[0,0] = -np.sin(dtr*lon0)
     R[1,0] = np.cos(dtr*lon0)
     R[2,0] = 0.0
@@ -2116,7 +2117,7 @@ def from_ENU(
     R[1,2] = np.cos(dtr*lat0)*np.sin(dtr*lon0)
     R[2,2] = np.sin(dtr*lat0)
     # calculate the ECEF coordinates
-    x, y, z = np.dot(R, np.vstack((E, N, U)))
+    x, y, z = np.einsum('ij...,j...->i...', R, np.array([E, N, U]))
     # add reference coordinates
     x += X0
     y += Y0
-- 
2.43.0


From 396cfb9c4babab03aa28564fe0505742d1d86f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 030/117] fix: closed-form geodetic coordinates of
 multi-dimensional arrays

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 812051a..a21c0ea 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1958,12 +1958,12 @@ def _zhu_closed_form(
     h = np.zeros_like(lon)
     if np.any(w == 0):
         # special case where w == 0 (exact polar solution)
-        ind, = np.nonzero(w == 0)
+        ind = np.nonzero(w == 0)
         h[ind] = np.sign(z[ind])*z[ind] - b_axis
         lat[ind] = 90.0*np.sign(z[ind])
     if np.any(w != 0):
         # all other cases
-        ind, = np.nonzero(w != 0)
+        ind = np.nonzero(w != 0)
         l = e12/2.0
         m = (w[ind]/a_axis)**2.0
         n = ((1.0 - e12)*z[ind]/b_axis)**2.0
-- 
2.43.0


From 599be2b2f3948762c0add8606b6c366ab1623d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 031/117] fix: closed-form geodetic coordinates near 45 degrees
 latitude were invalid or centimetres off

---
 pyTMD/spatial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index a21c0ea..f0bb20d 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1973,7 +1973,10 @@ def _zhu_closed_form(
         D = np.sqrt((2.0*q - m*n*l**2)*m*n*l**2)
         B = i/3.0 - (q + D)**(1.0/3.0) - (q - D)**(1.0/3.0)
         t = np.sqrt(np.sqrt(B**2-k) - (B + i)/2.0) - \
-            np.sign(m - n)*np.sqrt((B - i)/2.0)
+            np.sign(m - n)*np.sqrt(np.maximum(B - i, 0.0)/2.0)
+        # correct t for the cancellation of terms where m is close to n
+        t += (m/(t + l)**2 + n/(t - l)**2 - 1.0) / \
+            (2.0*m/(t + l)**3 + 2.0*n/(t - l)**3)
         wi = w[ind]/(t + l)
         zi = (1.0 - e12)*z[ind]/(t - l)
         # calculate latitude and height
-- 
2.43.0


From 12d51df7287daed45dfd30236e69dd96132039b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 032/117] fix: bilinear interpolation at the edges of the grid

---
 pyTMD/interpolate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index e3e9640..b1530a2 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -72,7 +72,7 @@ def bilinear(
         idata.mask = np.zeros_like(idata, dtype=bool)
     # find valid points (within bounds)
     valid, = np.nonzero((lon >= ilon.min()) & (lon <= ilon.max()) &
-        (lat > ilat.min()) & (lat < ilat.max()))
+        (lat >= ilat.min()) & (lat <= ilat.max()))
     # interpolate gridded data values to data
     npts = len(lon)
     # allocate to output interpolated data array
@@ -83,8 +83,10 @@ def bilinear(
     # for each valid point
     for i in valid:
         # calculating the indices for the original grid
-        ix, = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] > lon[i]))
-        iy, = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] > lat[i]))
+        # (points along the upper edges are within the last grid cells)
+        ix, = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] >= lon[i]))
+        iy, = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] >= lat[i]))
+        ix, iy = (ix[-1:], iy[-1:])
         # corner data values for adjacent grid cells
         IM = np.ma.zeros((4), fill_value=fill_value, dtype=dtype)
         IM.mask = np.ones((4), dtype=bool)
-- 
2.43.0


From 84408c0d9a2cdd0c77b5d767d43ffc6a1983af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 033/117] fix: bilinear interpolation between two invalid nodes
 gave an unmasked NaN

---
 pyTMD/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index b1530a2..d9a2758 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -110,9 +110,9 @@ def bilinear(
         elif (np.isclose(lat[i],ilat[iy+1]) & np.isclose(lon[i],ilon[ix+1])):
             data.data[i] = np.squeeze(idata.data[iy+1,ix+1]).astype(dtype)
             data.mask[i] = np.squeeze(idata.mask[iy+1,ix+1])
-        elif np.any(np.isfinite(IM) & (~IM.mask)):
+        elif np.any(np.isfinite(IM) & (~IM.mask) & (WM > 0)):
             # find valid indices for data summation and weight matrix
-            ii, = np.nonzero(np.isfinite(IM) & (~IM.mask))
+            ii, = np.nonzero(np.isfinite(IM) & (~IM.mask) & (WM > 0))
             # calculate interpolated value for i
             data.data[i] = np.sum(WM[ii]*IM[ii])/np.sum(WM[ii])
             data.mask[i] = np.all(IM.mask[ii])
-- 
2.43.0


From 7089e22a3abf77b129be7cb8422084e462522e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 034/117] fix: bilinear interpolation snapped to nodes within a
 relative tolerance

---
 pyTMD/interpolate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index d9a2758..90cce2b 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -98,16 +98,16 @@ def bilinear(
             IM.mask[j], = idata.mask[YI,XI]
             WM[3-j], = np.abs(lon[i]-ilon[XI])*np.abs(lat[i]-ilat[YI])
         # if on corner value: use exact
-        if (np.isclose(lat[i],ilat[iy]) & np.isclose(lon[i],ilon[ix])):
+        if (np.isclose(lat[i],ilat[iy],rtol=0) & np.isclose(lon[i],ilon[ix],rtol=0)):
             data.data[i] = np.squeeze(idata.data[iy,ix]).astype(dtype)
             data.mask[i] = np.squeeze(idata.mask[iy,ix])
-        elif (np.isclose(lat[i],ilat[iy+1]) & np.isclose(lon[i],ilon[ix])):
+        elif (np.isclose(lat[i],ilat[iy+1],rtol=0) & np.isclose(lon[i],ilon[ix],rtol=0)):
             data.data[i] = np.squeeze(idata.data[iy+1,ix]).astype(dtype)
             data.mask[i] = np.squeeze(idata.mask[iy+1,ix])
-        elif (np.isclose(lat[i],ilat[iy]) & np.isclose(lon[i],ilon[ix+1])):
+        elif (np.isclose(lat[i],ilat[iy],rtol=0) & np.isclose(lon[i],ilon[ix+1],rtol=0)):
             data.data[i] = np.squeeze(idata.data[iy,ix+1]).astype(dtype)
             data.mask[i] = np.squeeze(idata.mask[iy,ix+1])
-        elif (np.isclose(lat[i],ilat[iy+1]) & np.isclose(lon[i],ilon[ix+1])):
+        elif (np.isclose(lat[i],ilat[iy+1],rtol=0) & np.isclose(lon[i],ilon[ix+1],rtol=0)):
             data.data[i] = np.squeeze(idata.data[iy+1,ix+1]).astype(dtype)
             data.mask[i] = np.squeeze(idata.mask[iy+1,ix+1])
         elif np.any(np.isfinite(IM) & (~IM.mask) & (WM > 0)):
-- 
2.43.0


From e1602158ad1506d81e0bc340fa7e7b47b22d1e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 035/117] fix: spline interpolation gave valid values outside
 of the grid

---
 pyTMD/interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index 90cce2b..d59b226 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -198,6 +198,9 @@ def spline(
         # evaluate the spline at input coordinates
         data.data[:] = s1.ev(lon, lat).astype(dtype)
         data.mask[:] = reducer(s2.ev(lon, lat)).astype(bool)
+    # points outside of the grid are invalid
+    data.mask[:] |= (lon < np.min(ilon)) | (lon > np.max(ilon)) | \
+        (lat < np.min(ilat)) | (lat > np.max(ilat))
     # return interpolated values
     return data
 
-- 
2.43.0


From 9c9e4ac09d0fbf4c80dbde9d3ccb9fe05f02ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 036/117] fix: interpolation of arrays without a mask

---
 pyTMD/interpolate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index d59b226..588afcb 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -67,7 +67,7 @@ def bilinear(
         interpolated data
     """
     # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    if np.ma.getmask(idata) is np.ma.nomask:
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # find valid points (within bounds)
@@ -170,7 +170,7 @@ def spline(
     kwargs.setdefault('kx', 1)
     kwargs.setdefault('ky', 1)
     # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    if np.ma.getmask(idata) is np.ma.nomask:
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # interpolate gridded data values to data
@@ -261,7 +261,7 @@ def regulargrid(
     kwargs.setdefault('bounds_error', False)
     kwargs.setdefault('method', 'linear')
     # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    if np.ma.getmask(idata) is np.ma.nomask:
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # interpolate gridded data values to data
@@ -329,6 +329,10 @@ def extrapolate(
     # set geographic flag if using old EPSG projection keyword
     if hasattr(kwargs, 'EPSG') and (kwargs['EPSG'] == '4326'):
         is_geographic = True
+    # verify that input data is masked array
+    if np.ma.getmask(idata) is np.ma.nomask:
+        idata = np.ma.array(idata)
+        idata.mask = np.zeros_like(idata, dtype=bool)
     # verify output dimensions
     lon = np.atleast_1d(lon)
     lat = np.atleast_1d(lat)
-- 
2.43.0


From 11aff672bc9c3933d6011db1eb9a14b0148e21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 037/117] fix: NaN values of masked nodes in spline and linear
 interpolation

---
 pyTMD/interpolate.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index 588afcb..6c2320c 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -178,12 +178,14 @@ def spline(
     # allocate to output interpolated data array
     data = np.ma.zeros((npts), dtype=dtype, fill_value=fill_value)
     data.mask = np.ones((npts), dtype=bool)
+    # invalid values do not contribute to valid points
+    values = np.ma.filled(idata, 0)
     # construct splines for input data and mask
     if np.iscomplexobj(idata):
         s1 = scipy.interpolate.RectBivariateSpline(ilon, ilat,
-            idata.data.real.T, **kwargs)
+            values.real.T, **kwargs)
         s2 = scipy.interpolate.RectBivariateSpline(ilon, ilat,
-            idata.data.imag.T, **kwargs)
+            values.imag.T, **kwargs)
         s3 = scipy.interpolate.RectBivariateSpline(ilon, ilat,
             idata.mask.T, **kwargs)
         # evaluate the spline at input coordinates
@@ -192,7 +194,7 @@ def spline(
         data.mask[:] = reducer(s3.ev(lon, lat)).astype(bool)
     else:
         s1 = scipy.interpolate.RectBivariateSpline(ilon, ilat,
-            idata.data.T, **kwargs)
+            values.T, **kwargs)
         s2 = scipy.interpolate.RectBivariateSpline(ilon, ilat,
             idata.mask.T, **kwargs)
         # evaluate the spline at input coordinates
@@ -269,9 +271,11 @@ def regulargrid(
     # allocate to output interpolated data array
     data = np.ma.zeros((npts), dtype=dtype, fill_value=fill_value)
     data.mask = np.ones((npts), dtype=bool)
+    # invalid values do not contribute to valid points
+    values = np.ma.filled(idata, 0)
     # use scipy regular grid to interpolate values for a given method
     r1 = scipy.interpolate.RegularGridInterpolator((ilat, ilon),
-        idata.data, fill_value=fill_value, **kwargs)
+        values, fill_value=fill_value, **kwargs)
     r2 = scipy.interpolate.RegularGridInterpolator((ilat, ilon),
         idata.mask, fill_value=1, **kwargs)
     # evaluate the interpolator at input coordinates
-- 
2.43.0


From adc5f5e20b392316f8a304622f5c572dd7988626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 038/117] fix: cropping models across the edges of their
 longitudinal convention

---
 pyTMD/io/ATLAS.py | 36 +++++++++++++++++++++++++-----------
 pyTMD/io/FES.py   | 36 +++++++++++++++++++++++++-----------
 pyTMD/io/GOT.py   | 36 +++++++++++++++++++++++++-----------
 pyTMD/io/OTIS.py  | 37 ++++++++++++++++++++++++++-----------
 4 files changed, 101 insertions(+), 44 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ab6aba7..0289ba3 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1290,28 +1290,42 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # adjust longitudinal convention of tide model to fit the bounds
+    # center longitude of the (buffered) bounds
+    xmid = 0.5*(xmin + xmax)
+    # grid spacing and range of the model longitudes
+    dx = ilon[1] - ilon[0]
+    if ((ilon[-1] - ilon[0]) > (360.0 - 1.5*dx)):
+        # global: adjust to the revolution centered on the bounds
+        # (without the final longitude if it repeats the first)
+        n = np.count_nonzero(ilon < (ilon[0] + 360.0 - 0.5*dx))
+        shifted = ilon[:n] + 360.0*np.ceil((xmid - 180.0 - ilon[:n])/360.0)
+        order = np.argsort(shifted)
+        ilon = shifted[order]
+        input_matrix = input_matrix[:, order]
+        # use all longitudes if there is no gap between the bounds
+        if ((xmax - xmin) > (360.0 - 4.0*dx)):
+            xmin, xmax = ilon[0], ilon[-1]
+    else:
+        # regional: use the longitudinal convention closest to the bounds
+        ilon = ilon + 360.0*np.round((xmid - 0.5*(ilon[0] + ilon[-1]))/360.0)
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    cyclic = (-360.0, 0.0, 360.0)
+    xind = np.flatnonzero(np.any([((ilon + c) >= xmin) & ((ilon + c) <= xmax)
+        for c in cyclic], axis=0))
     # slices for cropping axes
     rows = slice(yind[0], yind[-1]+1)
     cols = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
-    lat = ilat[rows]
+    temp = input_matrix[rows, cols].copy()
+    lon = ilon[cols].copy()
+    lat = ilat[rows].copy()
     # return cropped data
     return (temp, lon, lat)
 
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8a5b66c..b2d2ab0 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -959,28 +959,42 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # adjust longitudinal convention of tide model to fit the bounds
+    # center longitude of the (buffered) bounds
+    xmid = 0.5*(xmin + xmax)
+    # grid spacing and range of the model longitudes
+    dx = ilon[1] - ilon[0]
+    if ((ilon[-1] - ilon[0]) > (360.0 - 1.5*dx)):
+        # global: adjust to the revolution centered on the bounds
+        # (without the final longitude if it repeats the first)
+        n = np.count_nonzero(ilon < (ilon[0] + 360.0 - 0.5*dx))
+        shifted = ilon[:n] + 360.0*np.ceil((xmid - 180.0 - ilon[:n])/360.0)
+        order = np.argsort(shifted)
+        ilon = shifted[order]
+        input_matrix = input_matrix[:, order]
+        # use all longitudes if there is no gap between the bounds
+        if ((xmax - xmin) > (360.0 - 4.0*dx)):
+            xmin, xmax = ilon[0], ilon[-1]
+    else:
+        # regional: use the longitudinal convention closest to the bounds
+        ilon = ilon + 360.0*np.round((xmid - 0.5*(ilon[0] + ilon[-1]))/360.0)
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    cyclic = (-360.0, 0.0, 360.0)
+    xind = np.flatnonzero(np.any([((ilon + c) >= xmin) & ((ilon + c) <= xmax)
+        for c in cyclic], axis=0))
     # slices for cropping axes
     rows = slice(yind[0], yind[-1]+1)
     cols = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
-    lat = ilat[rows]
+    temp = input_matrix[rows, cols].copy()
+    lon = ilon[cols].copy()
+    lat = ilat[rows].copy()
     # return cropped data
     return (temp, lon, lat)
 
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 7ce8eab..6c3fbed 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -845,28 +845,42 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # adjust longitudinal convention of tide model to fit the bounds
+    # center longitude of the (buffered) bounds
+    xmid = 0.5*(xmin + xmax)
+    # grid spacing and range of the model longitudes
+    dx = ilon[1] - ilon[0]
+    if ((ilon[-1] - ilon[0]) > (360.0 - 1.5*dx)):
+        # global: adjust to the revolution centered on the bounds
+        # (without the final longitude if it repeats the first)
+        n = np.count_nonzero(ilon < (ilon[0] + 360.0 - 0.5*dx))
+        shifted = ilon[:n] + 360.0*np.ceil((xmid - 180.0 - ilon[:n])/360.0)
+        order = np.argsort(shifted)
+        ilon = shifted[order]
+        input_matrix = input_matrix[:, order]
+        # use all longitudes if there is no gap between the bounds
+        if ((xmax - xmin) > (360.0 - 4.0*dx)):
+            xmin, xmax = ilon[0], ilon[-1]
+    else:
+        # regional: use the longitudinal convention closest to the bounds
+        ilon = ilon + 360.0*np.round((xmid - 0.5*(ilon[0] + ilon[-1]))/360.0)
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    cyclic = (-360.0, 0.0, 360.0)
+    xind = np.flatnonzero(np.any([((ilon + c) >= xmin) & ((ilon + c) <= xmax)
+        for c in cyclic], axis=0))
     # slices for cropping axes
     rows = slice(yind[0], yind[-1]+1)
     cols = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
-    lat = ilat[rows]
+    temp = input_matrix[rows, cols].copy()
+    lon = ilon[cols].copy()
+    lat = ilat[rows].copy()
     # return cropped data
     return (temp, lon, lat)
 
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b3717cd..0ff5cfe 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2009,28 +2009,43 @@ def _crop(
     y: np.ndarray
         cropped y-coordinates
     """
-    # adjust longitudinal convention of tide model
-    if is_geographic & (np.min(bounds[:2]) < 0.0) & (np.max(ix) > 180.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=180.0, cyclic=360.0, direction='west')
-    elif is_geographic & (np.max(bounds[:2]) > 180.0) & (np.min(ix) < 0.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # adjust longitudinal convention of tide model to fit the bounds
+    if is_geographic:
+        # center longitude of the (buffered) bounds
+        xmid = 0.5*(xmin + xmax)
+        # grid spacing and range of the model longitudes
+        dx = ix[1] - ix[0]
+        if ((ix[-1] - ix[0]) > (360.0 - 1.5*dx)):
+            # global: adjust to the revolution centered on the bounds
+            # (without the final longitude if it repeats the first)
+            n = np.count_nonzero(ix < (ix[0] + 360.0 - 0.5*dx))
+            shifted = ix[:n] + 360.0*np.ceil((xmid - 180.0 - ix[:n])/360.0)
+            order = np.argsort(shifted)
+            ix = shifted[order]
+            input_matrix = input_matrix[:, order]
+            # use all longitudes if there is no gap between the bounds
+            if ((xmax - xmin) > (360.0 - 4.0*dx)):
+                xmin, xmax = ix[0], ix[-1]
+        else:
+            # regional: use the longitudinal convention closest to the bounds
+            ix = ix + 360.0*np.round((xmid - 0.5*(ix[0] + ix[-1]))/360.0)
     # find indices for cropping
     yind = np.flatnonzero((iy >= ymin) & (iy <= ymax))
-    xind = np.flatnonzero((ix >= xmin) & (ix <= xmax))
+    cyclic = (-360.0, 0.0, 360.0) if is_geographic else (0.0,)
+    xind = np.flatnonzero(np.any([((ix + c) >= xmin) & ((ix + c) <= xmax)
+        for c in cyclic], axis=0))
     # slices for cropping axes
     rows = slice(yind[0], yind[-1]+1)
     cols = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    x = ix[cols]
-    y = iy[rows]
+    temp = input_matrix[rows, cols].copy()
+    x = ix[cols].copy()
+    y = iy[rows].copy()
     # return cropped data
     return (temp, x, y)
 
-- 
2.43.0


From 204f8644c591764adcbea3d0eed501e9af2f59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 039/117] fix: longitude convention of each point fits the tide
 model

---
 pyTMD/io/ATLAS.py | 25 ++++++-------------------
 pyTMD/io/FES.py   | 25 ++++++-------------------
 pyTMD/io/GOT.py   | 37 ++++++++++++++++++-------------------
 pyTMD/io/OTIS.py  | 29 +++++++++++------------------
 4 files changed, 41 insertions(+), 75 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 0289ba3..e4fa0d2 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -245,21 +245,12 @@ def extract_constants(
     is_global = False
 
     # crop bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mlon, mlat = np.copy(lon), np.copy(lat)
         bathymetry, lon, lat = _crop(bathymetry, mlon, mlat,
             bounds=bounds,
             buffer=buffer
         )
-    elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
 
     # replace original values with extend arrays/matrices
     if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
@@ -269,6 +260,9 @@ def extract_constants(
         is_global = True
     # create masks
     bathymetry.mask = (bathymetry.data == 0)
+    # adjust longitudinal convention of each point to fit tide model
+    ilon = np.where(ilon < lon.min(), ilon + 360.0, ilon)
+    ilon = np.where(ilon > lon.max(), ilon - 360.0, ilon)
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
@@ -563,16 +557,9 @@ def interpolate_constants(
     # adjust dimensions of input coordinates to be iterable
     ilon = np.atleast_1d(np.copy(ilon))
     ilat = np.atleast_1d(np.copy(ilat))
-    # adjust longitudinal convention of input latitude and longitude
-    # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
+    # adjust longitudinal convention of each point to fit tide model
+    ilon = np.where(ilon < lon.min(), ilon + 360.0, ilon)
+    ilon = np.where(ilon > lon.max(), ilon - 360.0, ilon)
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index b2d2ab0..2fc5049 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -262,25 +262,19 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
 
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of each point to fit tide model
+        ilon = np.where(ilon < lon.min(), ilon + 360.0, ilon)
+        ilon = np.where(ilon > lon.max(), ilon - 360.0, ilon)
         # determine if any input points are outside of the model bounds
         invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
                   (ilat < lat.min()) | (ilat > lat.max())
@@ -496,16 +490,9 @@ def interpolate_constants(
     # adjust dimensions of input coordinates to be iterable
     ilon = np.atleast_1d(np.copy(ilon))
     ilat = np.atleast_1d(np.copy(ilat))
-    # adjust longitudinal convention of input latitude and longitude
-    # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    # adjust longitudinal convention of each point to fit tide model
+    ilon = np.where(ilon < lon.min(), ilon + 360.0, ilon)
+    ilon = np.where(ilon > lon.max(), ilon - 360.0, ilon)
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 6c3fbed..91d7dc7 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -239,24 +239,21 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of each point to fit tide model
+        ilon = np.where(ilon < lon.min(), ilon + 360.0, ilon)
+        ilon = np.where(ilon > lon.max(), ilon - 360.0, ilon)
+        # determine if any input points are outside of the model bounds
+        invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+                  (ilat < lat.min()) | (ilat > lat.max())
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -299,6 +296,9 @@ def extract_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
@@ -445,16 +445,12 @@ def interpolate_constants(
     # adjust dimensions of input coordinates to be iterable
     ilon = np.atleast_1d(np.copy(ilon))
     ilat = np.atleast_1d(np.copy(ilat))
-    # adjust longitudinal convention of input latitude and longitude
-    # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    # adjust longitudinal convention of each point to fit tide model
+    ilon = np.where(ilon < lon.min(), ilon + 360.0, ilon)
+    ilon = np.where(ilon > lon.max(), ilon - 360.0, ilon)
+    # determine if any input points are outside of the model bounds
+    invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+              (ilat < lat.min()) | (ilat > lat.max())
     # number of points
     npts = len(ilon)
     # number of constituents
@@ -524,6 +520,9 @@ def interpolate_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 0ff5cfe..4981541 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -300,21 +300,12 @@ def extract_constants(
     buffer = kwargs['buffer'] or 4*dx
 
     # crop mask and bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mx, my = np.copy(xi), np.copy(yi)
         mz, xi, yi = _crop(mz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
         hz, xi, yi = _crop(hz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
-    elif (np.min(x) < np.min(xi)) & is_geographic:
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        x[x > 180] -= 360.0
 
     # if global: extend limits
     is_global = False
@@ -324,9 +315,6 @@ def extract_constants(
         # set global grid flag
         is_global = True
 
-    # determine if any input points are outside of the model bounds
-    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
-
     # update masks for each type
     if (kwargs['type'] == 'z'):
         # replace original values with extend matrices
@@ -367,6 +355,13 @@ def extract_constants(
         # y-coordinates for v transports
         yi -= dy/2.0
 
+    # adjust longitudinal convention of each point to fit tide model
+    if is_geographic:
+        x = np.where(x < xi.min(), x + 360.0, x)
+        x = np.where(x > xi.max(), x - 360.0, x)
+    # determine if any input points are outside of the model bounds
+    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
+
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
@@ -800,12 +795,10 @@ def interpolate_constants(
     # convert coordinate systems of input lat/lon
     x,y = constituents.crs.transform(ilon, ilat)
     is_geographic = constituents.crs.is_geographic
-    # adjust longitudinal convention of input latitude and longitude
-    # to fit tide model convention
-    if (np.min(x) < np.min(xi)) & is_geographic:
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        x[x > 180] -= 360.0
+    # adjust longitudinal convention of each point to fit tide model
+    if is_geographic:
+        x = np.where(x < xi.min(), x + 360.0, x)
+        x = np.where(x > xi.max(), x - 360.0, x)
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
-- 
2.43.0


From 25c33aeed652b7ccd4613a40e604a222c9cb7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 040/117] fix: detection of global OTIS grids with rounded
 coordinates

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 4981541..d30ce9a 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -609,7 +609,7 @@ def read_constants(
             buffer=kwargs['buffer'], is_geographic=is_geographic)
 
     # replace original values with extend arrays/matrices
-    if ((xi[-1] - xi[0]) == (360.0 - dx)) & is_geographic:
+    if np.isclose(xi[-1] - xi[0], 360.0 - dx) & is_geographic:
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
-- 
2.43.0


From ce61d80e0f005c0b984a046b49b5e157263d95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 041/117] fix: OTIS bathymetry at the velocity nodes of
 regional grids

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index d30ce9a..e98f2b9 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2159,7 +2159,7 @@ def _interpolate_zeta(hz: np.ndarray, is_global: bool = True):
     # shape of input data
     ny, nx = np.shape(hz)
     # get masks for u and v nodes
-    mu, mv = _mask_nodes(hz)
+    mu, mv = _mask_nodes(hz, is_global=is_global)
     # initialize data for u and v grids
     hu = np.zeros((ny, nx), dtype=hz.dtype)
     hv = np.zeros((ny, nx), dtype=hz.dtype)
-- 
2.43.0


From b8c06e941a590ae53be94d447b1f7e0d1c6cb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 042/117] fix: grid spacing of models cropped to a single
 column

---
 pyTMD/io/ATLAS.py | 4 ++--
 pyTMD/io/FES.py   | 4 ++--
 pyTMD/io/GOT.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index e4fa0d2..cf01d3d 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -442,6 +442,8 @@ def read_constants(
         compressed=kwargs['compressed'])
     is_global = False
 
+    # grid step size of tide model
+    dlon = lon[1] - lon[0]
     # crop bathymetry data to (buffered) bounds
     if kwargs['crop'] and np.any(kwargs['bounds']):
         mlon, mlat = np.copy(lon), np.copy(lat)
@@ -449,8 +451,6 @@ def read_constants(
             bounds=kwargs['bounds'],
             buffer=kwargs['buffer'],
         )
-    # grid step size of tide model
-    dlon = lon[1] - lon[0]
     # replace original values with extend arrays/matrices
     if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
         lon = _extend_array(lon, dlon)
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 2fc5049..1a0bb18 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -413,14 +413,14 @@ def read_constants(
         elif kwargs['version'] in _netcdf_versions:
             # FES netCDF4 constituent files
             hc, lon, lat = read_netcdf_file(model_file, **kwargs)
+        # grid step size of tide model
+        dlon = lon[1] - lon[0]
         # crop tide model data to (buffered) bounds
         if kwargs['crop'] and np.any(kwargs['bounds']):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=kwargs['bounds'],
                 buffer=kwargs['buffer'],
             )
-        # grid step size of tide model
-        dlon = lon[1] - lon[0]
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 91d7dc7..f989c02 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -367,14 +367,14 @@ def read_constants(
         elif (kwargs['grid'] == 'netcdf'):
             hc, lon, lat, cons = read_netcdf_file(model_file,
                 compressed=kwargs['compressed'])
+        # grid step size of tide model
+        dlon = np.abs(lon[1] - lon[0])
         # crop tide model data to (buffered) bounds
         if kwargs['crop'] and np.any(kwargs['bounds']):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=kwargs['bounds'],
                 buffer=kwargs['buffer'],
             )
-        # grid step size of tide model
-        dlon = np.abs(lon[1] - lon[0])
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
-- 
2.43.0


From 92f86f92ef164431b0f88212ef195a82b0e06df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 043/117] fix: OTIS constituent names with four characters

---
 pyTMD/io/OTIS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index e98f2b9..2d1a48e 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1157,7 +1157,7 @@ def read_constituents(
         ll, = np.fromfile(fid, dtype=np.dtype('>i4'), count=1)
         nx,ny,nc = np.fromfile(fid, dtype=np.dtype('>i4'), count=3)
         fid.seek(16,1)
-        constituents = [c.decode("utf8").rstrip() for c in fid.read(nc*4).split()]
+        constituents = [fid.read(4).decode("utf8").strip() for c in range(nc)]
         fid.close()
     return (constituents, nc)
 
@@ -1277,7 +1277,7 @@ def read_atlas_elevation(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        cons = [fid.read(4).decode("utf8").strip() for c in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
@@ -1442,7 +1442,7 @@ def read_atlas_transport(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        cons = [fid.read(4).decode("utf8").strip() for c in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
-- 
2.43.0


From 96da73869d1b5262014f4524bf99417847a3b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 044/117] fix: byte order and type of output OTIS grid and
 model files

---
 pyTMD/io/OTIS.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 2d1a48e..bca7a4e 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1775,8 +1775,8 @@ def output_otis_grid(
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.asarray(ylim).astype('>f4').tofile(fid)
+    np.asarray(xlim).astype('>f4').tofile(fid)
     fid.write(struct.pack('>f',dt))
     fid.write(struct.pack('>i',nob))
     fid.write(struct.pack('>i',reclen))
@@ -1787,18 +1787,17 @@ def output_otis_grid(
     else:
         reclen = 8*nob
         fid.write(struct.pack('>i',reclen))
-        iob.tofile(fid,format='>i4')
+        np.asarray(iob).astype('>i4').tofile(fid)
         fid.write(struct.pack('>i',reclen))
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
-    hz.tofile(fid,format='>f4')
     for m in range(ny):
-        hz[m,:].tofile(fid,format='>f4')
+        hz[m,:].astype('>f4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',reclen))
     for m in range(ny):
-        mz[m,:].tofile(fid,format='>i4')
+        mz[m,:].astype('>i4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     # close the output OTIS file
     fid.close()
@@ -1838,8 +1837,8 @@ def output_otis_elevation(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.asarray(ylim).astype('>f4').tofile(fid)
+    np.asarray(xlim).astype('>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1848,10 +1847,10 @@ def output_otis_elevation(
     for ic in range(nc):
         fid.write(struct.pack('>i',constituent_header))
         for m in range(ny):
-            temp = np.zeros((2*nx),dtype='>f')
+            temp = np.zeros((2*nx),dtype='>f4')
             temp[0:2*nx-1:2] = h.real[m,:,ic]
             temp[1:2*nx:2] = h.imag[m,:,ic]
-            temp.tofile(fid,format='>f4')
+            temp.tofile(fid)
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
     fid.close()
@@ -1894,8 +1893,8 @@ def output_otis_transport(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.asarray(ylim).astype('>f4').tofile(fid)
+    np.asarray(xlim).astype('>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1904,12 +1903,12 @@ def output_otis_transport(
     for ic in range(nc):
         fid.write(struct.pack('>i',constituent_header))
         for m in range(ny):
-            temp = np.zeros((4*nx),dtype='>f')
+            temp = np.zeros((4*nx),dtype='>f4')
             temp[0:4*nx-3:4] = u.real[m,:,ic]
             temp[1:4*nx-2:4] = u.imag[m,:,ic]
             temp[2:4*nx-1:4] = v.real[m,:,ic]
             temp[3:4*nx:4] = v.imag[m,:,ic]
-            temp.tofile(fid,format='>f4')
+            temp.tofile(fid)
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
     fid.close()
-- 
2.43.0


From c4e2dd37991974d922f7f25422e26d8471d66587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 045/117] fix: text model files with any number of columns

---
 pyTMD/io/FES.py | 17 +++++------------
 pyTMD/io/GOT.py | 19 ++++++-------------
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 1a0bb18..b33c8f5 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -638,21 +638,14 @@ def read_ascii_file(
     i1 = 5
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//30):
-            j1 = j*30
+        # lines of up to 30 columns (last line can be partially filled)
+        for j1 in range(0, nlon, 30):
+            j2 = np.minimum(j1 + 30, nlon)
             amplitude_data = file_contents[i1].split()
-            amp.data[i,j1:j1+30] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[i1+1].split()
-            ph.data[i,j1:j1+30] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32)
             i1 += 2
-        # add last tidal variables
-        j1 = (j+1)*30
-        j2 = nlon % 30
-        amplitude_data = file_contents[i1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[i1+1].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        i1 += 2
     # calculate complex form of constituent oscillation
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     hc = np.ma.array(amp*np.exp(-1j*ph*np.pi/180.0), mask=mask,
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index f989c02..24d1e31 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -590,25 +590,18 @@ def read_ascii_file(
     ph.mask = np.zeros((nlat,nlon),dtype=bool)
     # starting lines to fill amplitude and phase variables
     l1 = 7
-    l2 = 14 + int(nlon//11)*nlat + nlat
+    l2 = 14 + int(np.ceil(nlon/11))*nlat
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//11):
-            j1 = j*11
+        # lines of up to 11 columns (last line can be partially filled)
+        for j1 in range(0, nlon, 11):
+            j2 = np.minimum(j1 + 11, nlon)
             amplitude_data = file_contents[l1].split()
-            amp.data[i,j1:j1+11] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[l2].split()
-            ph.data[i,j1:j1+11] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32)
             l1 += 1
             l2 += 1
-        # add last tidal variables
-        j1 = (j+1)*11; j2 = nlon % 11
-        amplitude_data = file_contents[l1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[l2].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        l1 += 1
-        l2 += 1
     # set masks
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     # calculate complex form of constituent oscillation
-- 
2.43.0


From 64878925371d14bfa057f9881eaf401076c7555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 046/117] fix: reading compressed FES ascii files

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index b33c8f5..8b88e5a 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -610,7 +610,7 @@ def read_ascii_file(
     if kwargs['compressed']:
         # read gzipped ascii file
         with gzip.open(input_file, 'rb') as f:
-            file_contents = f.read(input_file).splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     else:
         with open(input_file, mode="r", encoding='utf8') as f:
             file_contents = f.read().splitlines()
-- 
2.43.0


From b4eb874461b8de7323171d9b071b1289e1d96cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 047/117] fix: output of FES current constituents

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8b88e5a..e2661af 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -813,7 +813,7 @@ def output_netcdf_file(
     # filling the NetCDF variables
     nc['lon'][:] = lon[:]
     nc['lat'][:] = lat[:]
-    nc['amplitude'][:] = amp[:]
+    nc[amp_key][:] = amp[:]
     nc[phase_key][:] = ph[:]
     # set variable attributes for coordinates
     nc['lon'].setncattr('axis', 'X')
-- 
2.43.0


From 36181a7a900d8960be1f429b881c8276d245c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 048/117] fix: mask of TMD3 constituents

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index bca7a4e..e55ad25 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -666,7 +666,7 @@ def read_constants(
         cons,_ = read_constituents(model_file, grid=kwargs['grid'])
     # save output constituents and coordinate reference system
     constituents = pyTMD.io.constituents(x=xi, y=yi,
-        bathymetry=bathymetry.data, mask=mask, crs=crs,
+        bathymetry=bathymetry.data, mask=bathymetry.mask, crs=crs,
         longitude=lon, latitude=lat)
 
     # read each model constituent
-- 
2.43.0


From ccfa695fd61852925e3568627237fba72b52916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 049/117] fix: interpolation of OTIS constituents differed from
 extraction

---
 pyTMD/io/OTIS.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index e55ad25..6ca03c0 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -483,7 +483,7 @@ def extract_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
@@ -780,6 +780,7 @@ def interpolate_constants(
         bathymetry of tide model
     """
     # set default keyword arguments
+    kwargs.setdefault('type', 'z')
     kwargs.setdefault('method', 'spline')
     kwargs.setdefault('extrapolate', False)
     kwargs.setdefault('cutoff', 10.0)
@@ -803,12 +804,18 @@ def interpolate_constants(
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
     # input model bathymetry
-    bathymetry = np.ma.array(constituents.bathymetry)
-    bathymetry.mask = np.copy(constituents.mask)
+    bathymetry = np.ma.array(np.copy(constituents.bathymetry),
+        mask=np.copy(constituents.mask))
     # interpolate depth and mask to output points
     if (kwargs['method'] == 'bilinear'):
+        # replace invalid values with nan
+        bathymetry.data[bathymetry.mask] = np.nan
         # use quick bilinear to interpolate values
-        D = pyTMD.interpolate.bilinear(xi, yi, bathymetry, x, y)
+        D = pyTMD.interpolate.bilinear(xi, yi, bathymetry, x, y,
+            fill_value=np.ma.default_fill_value(np.dtype(float)))
+        # replace nan values with fill_value
+        D.mask[:] |= np.isnan(D.data)
+        D.data[D.mask] = D.fill_value
     elif (kwargs['method'] == 'spline'):
         # use scipy bivariate splines to interpolate values
         D = pyTMD.interpolate.spline(xi, yi, bathymetry, x, y,
@@ -858,11 +865,11 @@ def interpolate_constants(
                 reducer=np.ceil,
                 kx=1, ky=1)
             # replace zero values with fill_value
-            hci.mask = D.mask
+            hci.mask |= D.mask
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace zero values with fill value
-            hc.data[(hc.data == 0) | hc.mask] = fill_value
+            # replace invalid values with fill value
+            hc.data[hc.mask] = fill_value
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(xi, yi, hc, x, y,
                 fill_value=fill_value,
@@ -871,7 +878,7 @@ def interpolate_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
-- 
2.43.0


From 64e272f27d4ebafa41c9ebc6e44f531c669d3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 050/117] fix: interpolating ATLAS constituents altered their
 bathymetry

---
 pyTMD/io/ATLAS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index cf01d3d..583e7ee 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -567,8 +567,8 @@ def interpolate_constants(
     # number of points
     npts = len(ilon)
     # create masked array of model bathymetry
-    bathymetry = np.ma.array(constituents.bathymetry,
-        mask=constituents.mask, fill_value=0.0)
+    bathymetry = np.ma.array(np.copy(constituents.bathymetry),
+        mask=np.copy(constituents.mask), fill_value=0.0)
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
-- 
2.43.0


From 47cb463d396af0e8723a81290b039e06b179b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 051/117] fix: extrapolated velocities were divided by masked
 depths

---
 pyTMD/io/ATLAS.py | 16 ++++++++++++++--
 pyTMD/io/OTIS.py  | 18 ++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 583e7ee..d1d7ab0 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -290,7 +290,13 @@ def extract_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        # use depths of the nearest nodes for extrapolated points
+        depth = np.ma.copy(D)
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+                ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -590,7 +596,13 @@ def interpolate_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        # use depths of the nearest nodes for extrapolated points
+        depth = np.ma.copy(D)
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+                ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 6ca03c0..18d4a2a 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -383,7 +383,14 @@ def extract_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        # use depths of the nearest nodes for extrapolated points
+        depth = np.ma.copy(D)
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+                x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -827,7 +834,14 @@ def interpolate_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        # use depths of the nearest nodes for extrapolated points
+        depth = np.ma.copy(D)
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+                x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
-- 
2.43.0


From 38b596915e70cf2bc8bc905a06977275c2aa2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 052/117] fix: interpolation of ATLAS-compact models across the
 prime meridian

---
 pyTMD/io/OTIS.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 18d4a2a..373a56a 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1619,6 +1619,11 @@ def interpolate_atlas_model(
     # interpolate global solution
     zs = np.ma.zeros((len(ys),len(xs)), dtype=zi.dtype)
     zs.mask = np.zeros((len(ys),len(xs)), dtype=bool)
+    # extend global arrays to be continuous across the grid edges
+    dx = xi[1] - xi[0]
+    if np.isclose(xi[-1] - xi[0], 360.0 - dx):
+        xi = _extend_array(xi, dx)
+        zi = _extend_matrix(zi)
     # test if combining elevation/transport variables with complex components
     if np.iscomplexobj(zs):
         f1 = scipy.interpolate.RectBivariateSpline(xi, yi, zi.real.T, kx=1,ky=1)
-- 
2.43.0


From 1586c3ce1439b41d2b8aa1257b0aa5f80b6774bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 053/117] fix: reading constituent names of output ATLAS files

---
 pyTMD/io/ATLAS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index d1d7ab0..8312605 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -835,6 +835,7 @@ def read_netcdf_elevation(
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
     # constituent name
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
@@ -894,6 +895,7 @@ def read_netcdf_transport(
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
     # constituent name
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
-- 
2.43.0


From 71e44319250780ff915290acbdf24dc6b6829eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 054/117] fix: appending a constituent twice listed it twice

---
 pyTMD/io/constituents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index e8308f7..a4ca3fb 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -63,7 +63,8 @@ class constituents:
             Tide model constituent (complex form)
         """
         # append field
-        self.fields.append(field)
+        if field not in self.fields:
+            self.fields.append(field)
         setattr(self, field, constituent)
         return self
 
-- 
2.43.0


From 7bc63b03c1e652563f4ba173b6e0f1f83a0b426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 055/117] fix: iterations over constituents shared their
 position

---
 pyTMD/io/constituents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index a4ca3fb..2ac48ae 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -290,7 +290,7 @@ class constituents:
         """Iterate over constituents
         """
         self.__index__ = 0
-        return self
+        return ((field, getattr(self, field)) for field in self.fields)
 
     def __next__(self):
         """Get the next constituent
-- 
2.43.0


From 10023d181eed2c2f6b89ab70d5b86c784f1b2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 056/117] fix: solving for constituents without tabulated
 parameters

---
 pyTMD/solve/constants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/solve/constants.py b/pyTMD/solve/constants.py
index 06c314a..34eb459 100644
--- a/pyTMD/solve/constants.py
+++ b/pyTMD/solve/constants.py
@@ -108,7 +108,11 @@ def constants(t: float | np.ndarray,
         if corrections in ('OTIS', 'ATLAS', 'TMD3', 'netcdf'):
             amp, ph, omega, alpha, species = \
                 pyTMD.arguments._constituent_parameters(c)
-            th = omega*t*86400.0 + ph + pu[:,k]
+            if (omega == 0.0):
+                # constituents without tabulated parameters
+                th = G[:,k]*np.pi/180.0 + pu[:,k]
+            else:
+                th = omega*t*86400.0 + ph + pu[:,k]
         else:
             th = G[:,k]*np.pi/180.0 + pu[:,k]
         # add constituent to design matrix
-- 
2.43.0


From 0df7622032da6aa042818b0f83777bfc6799f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 057/117] fix: extent of regions when reducing OTIS models

---
 scripts/reduce_OTIS_files.py | 46 +++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 0ccfa48..87376e9 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -106,33 +106,31 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
         # if reading a pure global solution
         xi,yi,hz,mz,iob,dt = pyTMD.io.OTIS.read_otis_grid(model.grid_file)
 
-    # converting bounds x,y from projection to latitude/longitude
+    # converting bounds x,y from projection to model coordinates
+    # (including the full extent of the edges of the bounding box)
     crs1 = pyTMD.crs().from_input(PROJECTION)
-    crs2 = pyproj.CRS.from_epsg(4326)
+    crs2 = pyTMD.crs().from_input(model.projection)
     transformer = pyproj.Transformer.from_crs(crs1, crs2, always_xy=True)
-    xbox = np.array([BOUNDS[0],BOUNDS[1],BOUNDS[1],BOUNDS[0],BOUNDS[0]])
-    ybox = np.array([BOUNDS[2],BOUNDS[2],BOUNDS[3],BOUNDS[3],BOUNDS[2]])
-    lon,lat = transformer.transform(xbox,ybox)
+    xmin,ymin,xmax,ymax = transformer.transform_bounds(
+        BOUNDS[0],BOUNDS[2],BOUNDS[1],BOUNDS[3],densify_pts=1000)
+    # if the bounds cross the antimeridian
+    if (crs2.is_geographic and (xmin > xmax)):
+        xmax += 360.0
+    # reduce grids to xmin,xmax,ymin,ymax
+    # adjusts the longitudinal convention of the model to fit the bounds
+    # and sets invalid values to 0
+    crop = lambda grid: pyTMD.io.OTIS._crop(np.ma.filled(grid, 0), xi, yi,
+        bounds=[xmin,xmax,ymin,ymax], is_geographic=crs2.is_geographic)
 
-    # convert bounds from latitude/longitude to model coordinates
-    x,y = pyTMD.crs().convert(lon,lat,model.projection,'F')
-
-    # find indices to reduce to xmin,xmax,ymin,ymax
-    gridx,gridy = np.meshgrid(xi,yi)
-    indy,indx = np.nonzero((gridx >= x.min()) & (gridx <= x.max()) &
-        (gridy >= y.min()) & (gridy <= y.max()))
-    nx = np.count_nonzero((xi >= x.min()) & (xi <= x.max()))
-    ny = np.count_nonzero((yi >= y.min()) & (yi <= y.max()))
+    # reduce grid and mask to new bounds
+    hz1,x1,y1 = crop(hz)
+    mz1,x1,y1 = crop(mz)
+    ny,nx = np.shape(hz1)
     # calculate new grid limits and convert back to grid-cell edges
     dx = np.abs(xi[1]-xi[0])
     dy = np.abs(yi[1]-yi[0])
-    xlim = np.array([xi[indx[0]]-dx/2.0,xi[indx[-1]]+dx/2.0],dtype='>f4')
-    ylim = np.array([yi[indy[0]]-dy/2.0,yi[indy[-1]]+dy/2.0],dtype='>f4')
-    # reduce grid and mask to new bounds
-    hz1 = np.zeros((ny,nx),dtype='>f4')
-    mz1 = np.zeros((ny,nx),dtype='>i4')
-    hz1[:,:] = hz[indy,indx].reshape(ny,nx)
-    mz1[:,:] = mz[indy,indx].reshape(ny,nx)
+    xlim = np.array([x1[0]-dx/2.0,x1[-1]+dx/2.0],dtype='>f4')
+    ylim = np.array([y1[0]-dy/2.0,y1[-1]+dy/2.0],dtype='>f4')
     # output reduced grid to file
     new_grid_file = create_unique_filename(model.grid_file)
     pyTMD.io.OTIS.output_otis_grid(new_grid_file,xlim,ylim,hz1,mz1,iob,dt)
@@ -160,7 +158,7 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
             else:
                 z = pyTMD.io.OTIS.read_otis_elevation(model_file['z'], i)
             # reduce elevation to new bounds
-            z1[:,:,i] = z[indy,indx].reshape(ny,nx)
+            z1[:,:,i],_,_ = crop(z)
         # output reduced elevation components
         new_model_file['z'] = create_unique_filename(model_file['z'])
         pyTMD.io.OTIS.output_otis_elevation(new_model_file['z'], z1,
@@ -192,8 +190,8 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
             else:
                 u,v = pyTMD.io.OTIS.read_otis_transport(model_file['u'],i)
             # reduce transport components to new bounds
-            u1[:,:,i] = u[indy,indx].reshape(ny,nx)
-            v1[:,:,i] = v[indy,indx].reshape(ny,nx)
+            u1[:,:,i],_,_ = crop(u)
+            v1[:,:,i],_,_ = crop(v)
         # output reduced transport components
         new_model_file['uv'] = create_unique_filename(model_file['u'])
         pyTMD.io.OTIS.output_otis_transport(new_model_file['u'], u1, v1,
-- 
2.43.0


From 5183807d35d563e52aa28ace7443d6ff21a806a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 058/117] fix: model files were never read when reducing OTIS
 models

---
 scripts/reduce_OTIS_files.py | 96 ++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 87376e9..3b1b6af 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -89,10 +89,6 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
         model = pyTMD.io.model(directory=tide_dir).elevation(TIDE_MODEL)
     except Exception as exc:
         model = pyTMD.io.model(directory=tide_dir).current(TIDE_MODEL)
-    # directionaries with input and output files
-    model_file = {}
-    new_model_file = {}
-
     # read the OTIS-format tide grid file
     if (model.format == 'ATLAS-compact'):
         # if reading a global solution with localized solutions
@@ -145,26 +141,28 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     except Exception as exc:
         pass
     else:
-        # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['z'])
-        z1 = np.zeros((ny,nx,nc),dtype=np.complex64)
-        for i,c in enumerate(constituents):
-            # read constituent from elevation file
-            if (model.format == 'ATLAS-compact'):
-                z0,zlocal = pyTMD.io.OTIS.read_atlas_elevation(
-                    model_file['z'], i, c)
-                xi,yi,z=pyTMD.io.OTIS.combine_atlas_model(x0, y0, z0, pmask,
-                    zlocal, variable='z')
-            else:
-                z = pyTMD.io.OTIS.read_otis_elevation(model_file['z'], i)
-            # reduce elevation to new bounds
-            z1[:,:,i],_,_ = crop(z)
-        # output reduced elevation components
-        new_model_file['z'] = create_unique_filename(model_file['z'])
-        pyTMD.io.OTIS.output_otis_elevation(new_model_file['z'], z1,
-            xlim, ylim, constituents)
-        # change the permissions level to MODE
-        new_model_file['z'].chmod(mode=MODE)
+        # for each model file (single or multiple constituents)
+        for model_file in np.atleast_1d(model.model_file):
+            # read each constituent
+            constituents,nc = pyTMD.io.OTIS.read_constituents(model_file)
+            z1 = np.zeros((ny,nx,nc),dtype=np.complex64)
+            for i,c in enumerate(constituents):
+                # read constituent from elevation file
+                if (model.format == 'ATLAS-compact'):
+                    z0,zlocal = pyTMD.io.OTIS.read_atlas_elevation(
+                        model_file, i, c)
+                    xi,yi,z = pyTMD.io.OTIS.combine_atlas_model(x0, y0, z0,
+                        pmask, zlocal, variable='z')
+                else:
+                    z = pyTMD.io.OTIS.read_otis_elevation(model_file, i)
+                # reduce elevation to new bounds
+                z1[:,:,i],_,_ = crop(z)
+            # output reduced elevation components
+            new_model_file = create_unique_filename(model_file)
+            pyTMD.io.OTIS.output_otis_elevation(new_model_file, z1,
+                xlim, ylim, constituents)
+            # change the permissions level to MODE
+            new_model_file.chmod(mode=MODE)
 
     # combine ATLAS sub-grids into single output grid
     # reduce transport files to bounds
@@ -174,30 +172,32 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     except Exception as exc:
         pass
     else:
-        # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['u'])
-        u1 = np.zeros((ny,nx,nc),dtype=np.complex64)
-        v1 = np.zeros((ny,nx,nc),dtype=np.complex64)
-        for i,c in enumerate(constituents):
-            # read constituent from transport file
-            if (model.format == 'ATLAS-compact'):
-                u0,v0,uvlocal = pyTMD.io.OTIS.read_atlas_transport(
-                    model_file['u'], i, c)
-                xi,yi,u = pyTMD.io.OTIS.combine_atlas_model(x0, y0, u0, pmask,
-                    uvlocal, variable='u')
-                xi,yi,v = pyTMD.io.OTIS.combine_atlas_model(x0, y0, v0, pmask,
-                    uvlocal, variable='v')
-            else:
-                u,v = pyTMD.io.OTIS.read_otis_transport(model_file['u'],i)
-            # reduce transport components to new bounds
-            u1[:,:,i],_,_ = crop(u)
-            v1[:,:,i],_,_ = crop(v)
-        # output reduced transport components
-        new_model_file['uv'] = create_unique_filename(model_file['u'])
-        pyTMD.io.OTIS.output_otis_transport(new_model_file['u'], u1, v1,
-            xlim, ylim, constituents)
-        # change the permissions level to MODE
-        new_model_file['u'].chmod(mode=MODE)
+        # for each model file (single or multiple constituents)
+        for model_file in np.atleast_1d(model.model_file['u']):
+            # read each constituent
+            constituents,nc = pyTMD.io.OTIS.read_constituents(model_file)
+            u1 = np.zeros((ny,nx,nc),dtype=np.complex64)
+            v1 = np.zeros((ny,nx,nc),dtype=np.complex64)
+            for i,c in enumerate(constituents):
+                # read constituent from transport file
+                if (model.format == 'ATLAS-compact'):
+                    u0,v0,uvlocal = pyTMD.io.OTIS.read_atlas_transport(
+                        model_file, i, c)
+                    xi,yi,u = pyTMD.io.OTIS.combine_atlas_model(x0, y0, u0,
+                        pmask, uvlocal, variable='u')
+                    xi,yi,v = pyTMD.io.OTIS.combine_atlas_model(x0, y0, v0,
+                        pmask, uvlocal, variable='v')
+                else:
+                    u,v = pyTMD.io.OTIS.read_otis_transport(model_file, i)
+                # reduce transport components to new bounds
+                u1[:,:,i],_,_ = crop(u)
+                v1[:,:,i],_,_ = crop(v)
+            # output reduced transport components
+            new_model_file = create_unique_filename(model_file)
+            pyTMD.io.OTIS.output_otis_transport(new_model_file, u1, v1,
+                xlim, ylim, constituents)
+            # change the permissions level to MODE
+            new_model_file.chmod(mode=MODE)
 
 # PURPOSE: create a unique filename adding a numerical instance if existing
 def create_unique_filename(filename):
-- 
2.43.0


From 806f15ff351ba5fa72418c29d472a4f484a5f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 059/117] fix: extra databases replaced all other models of
 their type

---
 pyTMD/io/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index ce00fd7..90c825d 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -126,7 +126,10 @@ def load_database(extra_databases: list = []):
     # load any additional databases
     for db in extra_databases:
         with open(db, 'r', encoding='utf-8') as fid:
-            parameters.update(json.load(fid))
+            extra = json.load(fid)
+        # update the models of each type (elevation and current)
+        for key, val in extra.items():
+            parameters.setdefault(key, {}).update(val)
     # return parameters
     return DataBase(**parameters)
 
-- 
2.43.0


From b3a3b86610ec65d7a7821b5032a73057d17482c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 060/117] fix: reading model definitions from open files

---
 pyTMD/io/model.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 90c825d..08b44bd 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -646,17 +646,26 @@ class model:
         kwargs.setdefault('format', 'json')
         # Opening definition file and assigning file ID number
         if isinstance(definition_file, io.IOBase):
-            fid = copy.copy(definition_file)
+            # read a copy of the contents (leaves the open file as entered)
+            position = definition_file.tell() if definition_file.seekable() else None
+            contents = definition_file.read()
+            if position is not None:
+                definition_file.seek(position)
+            if isinstance(contents, bytes):
+                contents = contents.decode('utf8')
+            fid = io.StringIO(contents)
         else:
             definition_file = pathlib.Path(definition_file).expanduser()
             fid = definition_file.open(mode='r', encoding='utf8')
         # load and parse definition file type
-        if (kwargs['format'].lower() == 'ascii'):
-            raise ValueError('ascii definition format no longer supported')
-        else:
-            self._parse_file(fid)
-        # close the definition file
-        fid.close()
+        try:
+            if (kwargs['format'].lower() == 'ascii'):
+                raise ValueError('ascii definition format no longer supported')
+            else:
+                self._parse_file(fid)
+        finally:
+            # close the definition file
+            fid.close()
         # return the model object
         return self
 
-- 
2.43.0


From 91cc3eb32f0fdf24148c00bdf88a77decaac8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 061/117] fix: model definitions with a single file of currents
 or constituents

---
 pyTMD/io/model.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 08b44bd..b2f2862 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -745,15 +745,13 @@ class model:
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expanduser(model_file)
             elif (temp.type == 'z') and isinstance(temp.model_file, list):
                 # resolve paths to model files
-                temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                temp.model_file = self._expanduser(temp.model_file)
             else:
                 # fully defined single file case
-                temp.model_file = pathlib.Path(temp.model_file).expanduser()
+                temp.model_file = self._expanduser(temp.model_file)
         elif temp.format in ('ATLAS-netcdf',):
             assert temp.grid_file
             # check if grid file is relative
@@ -790,12 +788,10 @@ class model:
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expanduser(model_file)
             elif (temp.type == 'z'):
                 # resolve paths to model files
-                temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                temp.model_file = self._expanduser(temp.model_file)
         elif temp.format in ('FES-ascii','FES-netcdf','GOT-ascii','GOT-netcdf'):
             # extract model files
             if (temp.type == ['u','v']) and (temp.directory is not None):
@@ -825,12 +821,10 @@ class model:
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expanduser(model_file)
             elif (temp.type == 'z'):
                 # resolve paths to model files
-                temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                temp.model_file = self._expanduser(temp.model_file)
         # verify that projection attribute exists for projected models
         if temp.format in ('OTIS','ATLAS-compact','TMD3'):
             assert temp.projection
@@ -846,6 +840,21 @@ class model:
         # return the model parameters
         return temp
 
+    @staticmethod
+    def _expanduser(model_file: str | pathlib.Path | list):
+        """
+        Expand the path(s) to model files
+
+        Parameters
+        ----------
+        model_file: str, pathlib.Path or list
+            model file(s) to expand
+        """
+        if isinstance(model_file, (str, pathlib.Path)):
+            return pathlib.Path(model_file).expanduser()
+        else:
+            return [pathlib.Path(f).expanduser() for f in model_file]
+
     def validate_format(self):
         """Asserts that the model format is a known type"""
         # known remapped cases
-- 
2.43.0


From d6d391575f3e0916a0f2b15084ebb65d23783740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 062/117] fix: serializing a model altered its files

---
 pyTMD/io/model.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index b2f2862..957c2f7 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -920,17 +920,21 @@ class model:
         d: dict
             Python dictionary to serialize
         """
+        # output dictionary (leaves the original unmodified)
+        output = {}
         # iterate over keys
         for key, val in d.items():
-            val = copy.copy(d[key])
             if isinstance(val, pathlib.Path):
-                d[key] = str(val)
-            elif isinstance(val, (list, tuple)) and isinstance(val[0], pathlib.Path):
-                d[key] = [str(v) for v in val]
+                output[key] = str(val)
+            elif isinstance(val, (list, tuple)):
+                output[key] = [str(v) if isinstance(v, pathlib.Path) else v
+                    for v in val]
             elif isinstance(val, dict):
-                d[key] = self.serialize(val)
+                output[key] = self.serialize(val)
+            else:
+                output[key] = copy.copy(val)
         # return the model dictionary
-        return d
+        return output
 
     def parse_constituents(self) -> list:
         """
-- 
2.43.0


From dda7423f32f8f656a3535f02b7c8b85bd43a34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 063/117] fix: definition files of FES-ascii models were
 rejected

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 957c2f7..1bed859 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -461,7 +461,8 @@ class model:
         # load the database of model parameters
         parameters = load_database()
         # extract all known formats
-        format_list = []
+        # (FES-ascii models are not in the database)
+        format_list = ['FES-ascii']
         for variable, models in parameters.items():
             for model, val in models.items():
                 format_list.append(val['format'])
-- 
2.43.0


From 7bb75d43f634fc4d2ebb264f6d3b9d96b4af715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 064/117] fix: extracting constants of FES currents and nodes
 from models

---
 pyTMD/io/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 1bed859..7413007 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1063,10 +1063,10 @@ class model:
                 model_file = self.model_file
             # extract tidal constants for model type
             amp,ph = FES.extract_constants(lon, lat,
-                self.model_file, version=self.version,
+                model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
-            c = self.constituents
+            c = copy.copy(self.constituents)
         # append node equilibrium tide if not in constituents list
         if kwargs['append_node'] and ('node' not in c):
             # calculate node equilibrium tide
-- 
2.43.0


From f0a612e2046a2a1fe5cde17d7e9ee529ea822ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 065/117] fix: reusing a model object kept parameters of the
 previous model

---
 pyTMD/io/model.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 7413007..876a39d 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -229,6 +229,18 @@ class model:
         self.verify = copy.copy(kwargs['verify'])
         self.version = None
 
+    def _reset(self):
+        """
+        Reset the parameters of any previously set model
+        """
+        for key in ('constituents', 'format', 'grid_file', 'minor',
+                'model_file', 'name', 'projection', 'reference',
+                'scale', 'type', 'variable', 'version'):
+            setattr(self, key, None)
+        # remove any previously read constituents
+        self.__dict__.pop('_constituents', None)
+        self.__dict__.pop('_constituents_type', None)
+
     def elevation(self, m: str, extra_databases: list = []):
         """
         Create a model object from known tidal elevation models
@@ -247,7 +259,9 @@ class model:
         parameters = load_database(extra_databases=extra_databases)
         # try to extract parameters for model
         try:
-            self.from_dict(parameters['elevation'][m])
+            d = parameters['elevation'][m]
+            self._reset()
+            self.from_dict(d)
         except (ValueError, KeyError) as exc:
             raise ValueError(f"Unlisted tide model {m}")
         # validate paths: grid file for OTIS, ATLAS models
@@ -280,7 +294,9 @@ class model:
         parameters = load_database(extra_databases=extra_databases)
         # try to extract parameters for model
         try:
-            self.from_dict(parameters['current'][m])
+            d = parameters['current'][m]
+            self._reset()
+            self.from_dict(d)
         except (ValueError, KeyError) as exc:
             raise ValueError(f"Unlisted tide model {m}")
         # validate paths: grid file for OTIS, ATLAS models
@@ -701,6 +717,7 @@ class model:
         # load JSON file
         parameters = json.load(fid)
         # convert from dictionary to model variable
+        self._reset()
         temp = self.from_dict(parameters)
         # verify model name, format and type
         assert temp.name
-- 
2.43.0


From df91afed013ca305d871ab051800287e6d83dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 066/117] fix: interpolating model constants of another type
 used those last read

---
 pyTMD/io/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 876a39d..aeced6c 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1166,6 +1166,7 @@ class model:
             c.append('node', hc)
         # return the tidal constituents
         self._constituents = c
+        self._constituents_type = str(kwargs['type']).lower()
         return c
 
     def interpolate_constants(self,
@@ -1198,7 +1199,8 @@ class model:
         kwargs.setdefault('type', self.type)
         kwargs.setdefault('scale', self.scale)
         # verify constituents have been read
-        if not hasattr(self, '_constituents'):
+        if not hasattr(self, '_constituents') or \
+            (self._constituents_type != str(kwargs['type']).lower()):
             self.read_constants(**kwargs)
         # interpolate tidal constants to grid points
         if self.format in ('OTIS','ATLAS-compact','TMD3'):
-- 
2.43.0


From 7a7b8ad74dd8d9341d8b195aae8104ab8ae315ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 067/117] fix: completing paths of model files entered as
 pathlib objects

---
 pyTMD/io/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index aeced6c..5b7e460 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -637,9 +637,9 @@ class model:
         if isinstance(model_file, list):
             output_file = [self.pathfinder(f) for f in model_file]
             valid = all([f.exists() for f in output_file])
-        elif isinstance(model_file, str):
+        elif isinstance(model_file, (str, pathlib.Path)):
             output_file = self.directory.joinpath(
-                ''.join([model_file, self.gzip]))
+                ''.join([str(model_file), self.gzip]))
             valid = output_file.exists()
         # check that (all) output files exist
         if self.verify and not valid:
-- 
2.43.0


From 9e6b45121db9c231f8de45ad49afd8319940c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 068/117] fix: directory of TPXO9.1 currents

---
 providers/TPXO.json      | 4 ++--
 pyTMD/data/database.json | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/providers/TPXO.json b/providers/TPXO.json
index 1c906b5..086ac2b 100644
--- a/providers/TPXO.json
+++ b/providers/TPXO.json
@@ -494,9 +494,9 @@
         },
         "TPXO9.1": {
             "format": "OTIS",
-            "grid_file": "TPXO9.1/grid_tpxo9",
+            "grid_file": "TPXO9.1/DATA/grid_tpxo9",
             "model_file": {
-                "u": "TPXO9.1/u_tpxo9.v1"
+                "u": "TPXO9.1/DATA/u_tpxo9.v1"
             },
             "name": "TPXO9.1",
             "projection": "EPSG:4326",
diff --git a/pyTMD/data/database.json b/pyTMD/data/database.json
index ba5f6a6..ecd0d1c 100644
--- a/pyTMD/data/database.json
+++ b/pyTMD/data/database.json
@@ -821,9 +821,9 @@
         },
         "TPXO9.1": {
             "format": "OTIS",
-            "grid_file": "TPXO9.1/grid_tpxo9",
+            "grid_file": "TPXO9.1/DATA/grid_tpxo9",
             "model_file": {
-                "u": "TPXO9.1/u_tpxo9.v1"
+                "u": "TPXO9.1/DATA/u_tpxo9.v1"
             },
             "name": "TPXO9.1",
             "projection": "EPSG:4326",
-- 
2.43.0


From 8e66963179c10fe5d24a868212efd3911e08eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 069/117] fix: equilibrium node tide of read constants was
 scaled with the model units

---
 pyTMD/io/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 5b7e460..e815fad 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1153,6 +1153,11 @@ class model:
         if kwargs['append_node'] and ('node' not in c.fields):
             # calculate node equilibrium tide
             amp, ph = self.node_equilibrium(c.latitude)
+            # convert from meters to the units of the model
+            # (constants are scaled when interpolated)
+            if self.scale and self.format in ('ATLAS-netcdf',
+                'GOT-ascii','GOT-netcdf','FES-ascii','FES-netcdf'):
+                amp /= self.scale
             # broadcast to shape of constituents
             if (np.shape(c.latitude) != c.shape):
                 amp = np.broadcast_to(amp[:,None], c.shape, subok=True)
-- 
2.43.0


From e32e02cb699de85d288a22ae12b777fcfdea9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:56 +0000
Subject: [PATCH 070/117] fix: interpolation methods in upper or mixed case
 were accepted but not found

---
 pyTMD/compute.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index c5e2a35..5ad2de3 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -365,7 +365,7 @@ def tide_elevations(
 
     # read tidal constants and interpolate to grid points
     amp, ph, c = model.extract_constants(lon, lat, type=model.type,
-        crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD,
+        crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD.lower(),
         extrapolate=EXTRAPOLATE, cutoff=CUTOFF,
         append_node=APPEND_NODE, apply_flexure=APPLY_FLEXURE)
     # calculate complex phase in radians for Euler's
@@ -589,7 +589,7 @@ def tide_currents(
     for t in model.type:
         # read tidal constants and interpolate to grid points
         amp, ph, c = model.extract_constants(lon, lat, type=t,
-            crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD,
+            crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD.lower(),
             extrapolate=EXTRAPOLATE, cutoff=CUTOFF)
         # calculate complex phase in radians for Euler's
         cph = -1j*ph*np.pi/180.0
@@ -1235,7 +1235,7 @@ def OPT_displacements(
 
     # read and interpolate ocean pole tide map from Desai (2002)
     ur, un, ue = pyTMD.io.IERS.extract_coefficients(lon.flatten(),
-        latitude_geocentric, method=METHOD)
+        latitude_geocentric, method=METHOD.lower())
     # rotation matrix for converting to/from cartesian coordinates
     R = np.zeros((npts, 3, 3))
     R[:,0,0] = np.cos(phi)*np.cos(theta)
-- 
2.43.0


From 6773bfba20e6d04e9e8ac05292b5fe5ec3a07bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 071/117] fix: domain masks could not be read for most model
 formats

---
 pyTMD/compute.py | 55 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 5ad2de3..769f207 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -724,44 +724,67 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         np.atleast_1d(x).flatten(), np.atleast_1d(y).flatten()
     )
 
+    # path to the first model file for reading grids from constituent files
+    if isinstance(model.model_file, list):
+        model_file = pathlib.Path(model.model_file[0]).expanduser()
+    else:
+        model_file = pathlib.Path(model.model_file).expanduser()
+
     # read tidal constants and interpolate to grid points
     if model.format in ('OTIS','ATLAS-compact','TMD3'):
         # if reading a single OTIS solution
-        xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(
-            pathlib.Path(model.grid_file).expanduser())
+        grid_file = pathlib.Path(model.grid_file).expanduser()
+        if (model.format == 'OTIS'):
+            xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(grid_file)
+        elif (model.format == 'TMD3'):
+            xi, yi, hz, mz, sf = pyTMD.io.OTIS.read_netcdf_grid(grid_file)
+        else:
+            # create global grids from the global and local solutions
+            x0, y0, hz0, mz0, iob, dt, pmask, local = \
+                pyTMD.io.OTIS.read_atlas_grid(grid_file)
+            xi, yi, hz = pyTMD.io.OTIS.combine_atlas_model(x0, y0, hz0,
+                pmask, local, variable='depth')
+            mz = pyTMD.io.OTIS.create_atlas_mask(x0, y0, mz0,
+                local, variable='depth')
         # invert model mask
-        mz = np.logical_not(mz)
+        mz = np.logical_not(mz) | (np.ma.getdata(hz) == 0)
         # adjust dimensions of input coordinates to be iterable
         # run wrapper function to convert coordinate systems of input lat/lon
         X, Y = pyTMD.crs().convert(lon, lat, model.projection, 'F')
     elif (model.format == 'ATLAS-netcdf'):
         # if reading a netCDF OTIS atlas solution
         xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(
-            pathlib.Path(model.grid_file).expanduser(),
-            compressed=model.compressed, type=model.type)
-        # copy bathymetry mask
-        mz = np.copy(hz.mask)
+            pathlib.Path(model.grid_file).expanduser(), 'z',
+            compressed=model.compressed)
+        # mask of invalid bathymetry
+        mz = (np.ma.getdata(hz) == 0)
         # copy latitude and longitude and adjust longitudes
         X,Y = np.copy([lon,lat]).astype(np.float64)
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
         # if reading a NASA GOT solution
-        hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
-            pathlib.Path(model.model_file[0]).expanduser(),
-            compressed=model.compressed)
+        if (model.format == 'GOT-ascii'):
+            hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
+                model_file, compressed=model.compressed)
+        else:
+            hc, xi, yi, c = pyTMD.io.GOT.read_netcdf_file(
+                model_file, compressed=model.compressed)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
         # copy latitude and longitude and adjust longitudes
         X, Y = np.copy([lon,lat]).astype(np.float64)
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
-    elif (model.format == 'FES-netcdf'):
-        # if reading a FES netCDF solution
-        hc, xi, yi = pyTMD.io.FES.read_netcdf_file(
-            pathlib.Path(model.model_file[0]).expanduser(),
-            compressed=model.compressed, type=model.type,
-            version=model.version)
+    elif model.format in ('FES-ascii', 'FES-netcdf'):
+        # if reading a FES solution
+        if (model.format == 'FES-ascii'):
+            hc, xi, yi = pyTMD.io.FES.read_ascii_file(
+                model_file, compressed=model.compressed)
+        else:
+            hc, xi, yi = pyTMD.io.FES.read_netcdf_file(
+                model_file, compressed=model.compressed,
+                type=model.type, version=model.version)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
         # copy latitude and longitude and adjust longitudes
-- 
2.43.0


From b3f3c452be57dcb8bfafc83d3a96d11aa10415f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 072/117] fix: domain masks depended on the longitude
 convention of the model

---
 pyTMD/compute.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 769f207..d4a33b8 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -748,9 +748,10 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
                 local, variable='depth')
         # invert model mask
         mz = np.logical_not(mz) | (np.ma.getdata(hz) == 0)
-        # adjust dimensions of input coordinates to be iterable
-        # run wrapper function to convert coordinate systems of input lat/lon
-        X, Y = pyTMD.crs().convert(lon, lat, model.projection, 'F')
+        # convert coordinate systems of input lat/lon
+        crs = pyTMD.crs().get(model.projection)
+        X, Y = crs.transform(lon, lat, direction='FORWARD')
+        is_geographic = crs.is_geographic
     elif (model.format == 'ATLAS-netcdf'):
         # if reading a netCDF OTIS atlas solution
         xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(
@@ -758,10 +759,9 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             compressed=model.compressed)
         # mask of invalid bathymetry
         mz = (np.ma.getdata(hz) == 0)
-        # copy latitude and longitude and adjust longitudes
-        X,Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
+        # copy latitude and longitude
+        X, Y = np.copy([lon,lat]).astype(np.float64)
+        is_geographic = True
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
         # if reading a NASA GOT solution
         if (model.format == 'GOT-ascii'):
@@ -772,10 +772,9 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
                 model_file, compressed=model.compressed)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
-        # copy latitude and longitude and adjust longitudes
+        # copy latitude and longitude
         X, Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
+        is_geographic = True
     elif model.format in ('FES-ascii', 'FES-netcdf'):
         # if reading a FES solution
         if (model.format == 'FES-ascii'):
@@ -787,10 +786,20 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
                 type=model.type, version=model.version)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
-        # copy latitude and longitude and adjust longitudes
+        # copy latitude and longitude
         X, Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
+        is_geographic = True
+
+    # grid step size of tide model
+    dx = xi[1] - xi[0]
+    # if global: extend limits
+    if is_geographic and np.isclose(xi[-1] - xi[0], 360.0 - dx):
+        xi = np.concatenate(([xi[0] - dx], xi, [xi[-1] + dx]))
+        mz = np.concatenate((mz[:,-1:], mz, mz[:,:1]), axis=1)
+    # adjust longitudes to the convention of the tide model
+    if is_geographic:
+        X = np.where(X < xi.min(), X + 360.0, X)
+        X = np.where(X > xi.max(), X - 360.0, X)
 
     # interpolate masks
     if (METHOD == 'bilinear'):
-- 
2.43.0


From 36d124a0d1b88fd3369157194da6a847c94504ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 073/117] fix: domain masks of single points, of gridded points
 and for regular grid methods

---
 pyTMD/compute.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index d4a33b8..106390f 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -802,27 +802,28 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X = np.where(X > xi.max(), X - 360.0, X)
 
     # interpolate masks
-    if (METHOD == 'bilinear'):
-        # replace invalid values with nan
+    mz = mz.astype(np.float64)
+    if (METHOD.lower() == 'bilinear'):
         mz1 = pyTMD.interpolate.bilinear(xi, yi, mz, X, Y)
-        mask = np.floor(mz1).astype(mz.dtype)
-    elif (METHOD == 'spline'):
+        mz1 = np.ma.filled(mz1, 1.0)
+    elif (METHOD.lower() == 'spline'):
         f1 = scipy.interpolate.RectBivariateSpline(xi, yi, mz.T,
             kx=1, ky=1)
-        mask = np.floor(f1.ev(X, Y)).astype(mz.dtype)
+        mz1 = f1.ev(X, Y)
     else:
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
-            method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[y, x])).astype(mz.dtype)
+            method=METHOD.lower(), bounds_error=False, fill_value=1)
+        mz1 = r1.__call__(np.c_[Y, X])
 
-    # reshape to original dimensions
-    valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
+    # points are valid if not completely masked
+    # (allowing for rounding of the interpolated mask)
+    valid = (mz1 < (1.0 - 1e-9))
     # replace points outside model domain with invalid
     valid &= (X >= xi.min()) & (X <= xi.max())
     valid &= (Y >= yi.min()) & (Y <= yi.max())
-    # return the valid mask
-    return valid
+    # return the valid mask in the original dimensions
+    return valid.reshape(idim)
 
 # PURPOSE: compute long-period equilibrium tidal elevations
 def LPET_elevations(
-- 
2.43.0


From 6c82cbf500b9466079c022f60a4b4a3b52f662bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 074/117] fix: writing data files altered the attributes and
 data passed

---
 pyTMD/spatial.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f0bb20d..22d59dc 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -903,6 +903,8 @@ def to_netCDF4(
     # default arguments
     kwargs.setdefault('mode', 'w')
     kwargs.setdefault('data_type', 'drift')
+    # create copy of attributes (to not update the inputs)
+    attributes = copy.deepcopy(attributes)
     # opening NetCDF file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
     fileID = netCDF4.Dataset(filename, kwargs['mode'], format="NETCDF4")
@@ -1083,6 +1085,8 @@ def to_HDF5(
     """
     # set default keyword arguments
     kwargs.setdefault('mode', 'w')
+    # create copy of attributes (to not update the inputs)
+    attributes = copy.deepcopy(attributes)
     # opening HDF5 file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
     fileID = h5py.File(filename, mode=kwargs['mode'])
@@ -1157,7 +1161,7 @@ def to_geotiff(
     kwargs.setdefault('options', ['COMPRESS=LZW'])
     varname = copy.copy(kwargs['varname'])
     # verify grid dimensions to be iterable
-    output = expand_dims(output, varname=varname)
+    output = expand_dims(copy.copy(output), varname=varname)
     # grid shape
     ny, nx, nband = np.shape(output[varname])
     # output as geotiff or specified driver
@@ -1228,6 +1232,8 @@ def to_parquet(
     kwargs.setdefault('geoparquet', False)
     kwargs.setdefault('geometry_encoding', 'WKB')
     kwargs.setdefault('primary_column', 'geometry')
+    # create copy of attributes (to not update the inputs)
+    attributes = copy.deepcopy(attributes)
     # convert to pandas dataframe
     df = pd.DataFrame(output)
     attrs = df.attrs.copy()
-- 
2.43.0


From d9cc3bb1ee09dd1152550995a80e9834476cd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 075/117] fix: reading netCDF4 and HDF5 files altered the field
 mapping passed

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 22d59dc..61514f3 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -422,6 +422,7 @@ def from_netCDF4(filename: str, **kwargs):
     attributes_list = ['description', 'units', 'long_name', 'calendar',
         'standard_name', 'grid_mapping', '_FillValue']
     # mapping between netCDF4 variable names and output names
+    kwargs['field_mapping'] = copy.copy(kwargs['field_mapping'])
     if not kwargs['field_mapping']:
         kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
         kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
@@ -537,6 +538,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     attributes_list = ['description', 'units', 'long_name', 'calendar',
         'standard_name', 'grid_mapping', '_FillValue']
     # mapping between HDF5 variable names and output names
+    kwargs['field_mapping'] = copy.copy(kwargs['field_mapping'])
     if not kwargs['field_mapping']:
         kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
         kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
-- 
2.43.0


From bcb86fffe209f0642d164dd0e213ce2565b1a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 076/117] fix: attributes of netCDF4 files with similar names
 were not found

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 61514f3..0bb9808 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -414,7 +414,7 @@ def from_netCDF4(filename: str, **kwargs):
     for attr in ['title', 'description', 'projection']:
         # try getting the attribute
         try:
-            ncattr, = [s for s in fileID.ncattrs() if re.match(attr, s, re.I)]
+            ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
             dinput['attributes'][attr] = fileID.getncattr(ncattr)
         except (ValueError, AttributeError):
             pass
@@ -442,7 +442,7 @@ def from_netCDF4(filename: str, **kwargs):
             # try getting the attribute
             try:
                 ncattr, = [s for s in group.variables[nc].ncattrs()
-                    if re.match(attr, s, re.I)]
+                    if re.fullmatch(attr, s, re.I)]
                 dinput['attributes'][key][attr] = \
                     group.variables[nc].getncattr(ncattr)
             except (ValueError, AttributeError):
-- 
2.43.0


From 811ca0f6b2e89f82e1db117e862ee3f849d8a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 077/117] fix: fill values of HDF5 files were not written

---
 pyTMD/spatial.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 0bb9808..1a35b53 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1098,10 +1098,14 @@ def to_HDF5(
         if key in fileID:
             fileID[key][...] = val[:]
         elif '_FillValue' in attributes[key].keys():
-            h5[key] = fileID.create_dataset(key, val.shape, data=val,
-                dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
-                compression='gzip')
-            attributes[key].pop('_FillValue')
+            # replace missing values with the fill value
+            fill_value = val.dtype.type(attributes[key]['_FillValue'])
+            h5[key] = fileID.create_dataset(key, val.shape,
+                data=np.ma.filled(val, fill_value=fill_value),
+                dtype=val.dtype, fillvalue=fill_value,
+                compression=('gzip' if val.shape else None))
+            # keep the type of the data in the attribute
+            attributes[key]['_FillValue'] = fill_value
         elif val.shape:
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
-- 
2.43.0


From f35f0731093af2a8211a85748147cb08dff7c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 078/117] fix: updating variables of existing HDF5 files

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 1a35b53..c67e2ec 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1096,7 +1096,8 @@ def to_HDF5(
     h5 = {}
     for key, val in output.items():
         if key in fileID:
-            fileID[key][...] = val[:]
+            h5[key] = fileID[key]
+            h5[key][...] = np.ma.filled(val, fill_value=h5[key].fillvalue)
         elif '_FillValue' in attributes[key].keys():
             # replace missing values with the fill value
             fill_value = val.dtype.type(attributes[key]['_FillValue'])
-- 
2.43.0


From df0e433410faefb676045d47aee048ce44dbc967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 079/117] fix: scalar variables of HDF5 files were written
 without their value

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c67e2ec..b1f4e1e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1111,7 +1111,7 @@ def to_HDF5(
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
         else:
-            h5[key] = fileID.create_dataset(key, val.shape,
+            h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype)
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-- 
2.43.0


From 4817059fd68e0597fc825a3a390bcd6112b64133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 080/117] fix: reading scalar variables of HDF5 files

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index b1f4e1e..3a3b010 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -551,7 +551,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     # for each variable
     for key, h5 in kwargs['field_mapping'].items():
         # Getting the data from each HDF5 variable
-        dinput[key] = np.copy(group[h5][:])
+        dinput[key] = np.copy(group[h5][()])
         # get attributes for the included variables
         dinput['attributes'][key] = {}
         for attr in attributes_list:
-- 
2.43.0


From 503774428435a5df2a32e2977034556d8ede28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 081/117] fix: compressed HDF5 files could not be read by name

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 3a3b010..dd32a0c 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -510,7 +510,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         with gzip.open(case_insensitive_filename(filename), 'r') as f:
             fid = io.BytesIO(f.read())
         # set filename of BytesIO object
-        fid.filename = filename.name
+        fid.filename = pathlib.Path(filename).name
         # rewind to start of file
         fid.seek(0)
         # read as in-memory (diskless) HDF5 dataset from BytesIO object
-- 
2.43.0


From eb1bb1d93def75944d570b4c7057c886b0e4cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 082/117] fix: dimensions of netCDF4 variables with equal sizes
 or fill values

---
 pyTMD/spatial.py | 68 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index dd32a0c..bdc0526 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -957,8 +957,10 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
         elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
+            dims = ('time',) if val.shape else ()
+            nc[key] = fileID.createVariable(key, val.dtype, dims,
+                fill_value=attributes[key]['_FillValue'],
+                zlib=bool(dims))
             attributes[key].pop('_FillValue')
         elif val.shape:
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
@@ -996,24 +998,34 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
-        if key in fileID.variables:
-            nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
-        elif (val.ndim == 3):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
+        # dimensions of the variable
+        # (coordinate variables by name as sizes can be equal)
+        if (val.ndim == 3):
+            dims = ('y', 'x', 'time')
         elif (val.ndim == 2):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x'))
+            dims = ('y', 'x')
+        elif val.shape and (key in dimensions[:2]) and (len(val) == nt):
+            dims = ('time',)
+        elif val.shape and (key in dimensions[2:5]) and (len(val) == nx):
+            dims = ('x',)
         elif val.shape and (len(val) == ny):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y',))
+            dims = ('y',)
         elif val.shape and (len(val) == nx):
-            nc[key] = fileID.createVariable(key, val.dtype, ('x',))
+            dims = ('x',)
         elif val.shape and (len(val) == nt):
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
+            dims = ('time',)
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            dims = ()
+        # create the variable if not existing
+        if key in fileID.variables:
+            nc[key] = fileID.variables[key]
+        elif '_FillValue' in attributes[key].keys():
+            nc[key] = fileID.createVariable(key, val.dtype, dims,
+                fill_value=attributes[key]['_FillValue'],
+                zlib=bool(dims))
+            attributes[key].pop('_FillValue')
+        else:
+            nc[key] = fileID.createVariable(key, val.dtype, dims)
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
@@ -1045,20 +1057,28 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
+        # dimensions of the variable
+        # (coordinate variables by name as sizes can be equal)
+        if (val.ndim == 2):
+            dims = ('station', 'time')
+        elif val.shape and (key in dimensions[2:]) and (len(val) == nstation):
+            dims = ('station',)
+        elif val.shape and (len(val) == nt):
+            dims = ('time',)
+        elif val.shape and (len(val) == nstation):
+            dims = ('station',)
+        else:
+            dims = ()
+        # create the variable if not existing
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
         elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
+            nc[key] = fileID.createVariable(key, val.dtype, dims,
+                fill_value=attributes[key]['_FillValue'],
+                zlib=bool(dims))
             attributes[key].pop('_FillValue')
-        elif (val.ndim == 2):
-            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
-        elif val.shape and (len(val) == nt):
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
-        elif val.shape and (len(val) == nstation):
-            nc[key] = fileID.createVariable(key, val.dtype, ('station',))
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            nc[key] = fileID.createVariable(key, val.dtype, dims)
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
-- 
2.43.0


From 53a4430cd0f71ea1d11ffe6c567842a371f72fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 083/117] fix: missing values marked by not a number were not
 masked

---
 pyTMD/spatial.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index bdc0526..f14e84c 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -466,7 +466,8 @@ def from_netCDF4(filename: str, **kwargs):
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        # use the fill values found when reading (for scaled data)
+        dinput['data'].mask = np.ma.getmaskarray(dinput['data'])
     # Closing the NetCDF file
     fileID.close()
     # return the spatial variables
@@ -577,13 +578,28 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].fill_value = \
+            np.squeeze(dinput['attributes']['data']['_FillValue'])
+        dinput['data'].mask = _is_fill_value(dinput['data'].data,
+            dinput['data'].fill_value)
     # Closing the HDF5 file
     fileID.close()
     # return the spatial variables
     return dinput
 
+def _is_fill_value(data: np.ndarray, fill_value: float):
+    """
+    Find the missing values in an array
+
+    Parameters
+    ----------
+    data: np.ndarray
+        data values
+    fill_value: float
+        value for missing data (can be NaN)
+    """
+    return np.isnan(data) if np.isnan(fill_value) else (data == fill_value)
+
 def from_geotiff(filename: str, **kwargs):
     """
     Read data from a geotiff file
@@ -672,11 +688,12 @@ def from_geotiff(filename: str, **kwargs):
     # check if image has fill values
     dinput['data'] = np.ma.asarray(dinput['data'])
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
-    if ds.GetRasterBand(1).GetNoDataValue():
+    if ds.GetRasterBand(1).GetNoDataValue() is not None:
         # mask invalid values
         dinput['data'].fill_value = ds.GetRasterBand(1).GetNoDataValue()
         # create mask array for bad values
-        dinput['data'].mask[:] = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask[:] = _is_fill_value(dinput['data'].data,
+            dinput['data'].fill_value)
         # set attribute for fill value
         dinput['attributes']['data']['_FillValue'] = dinput['data'].fill_value
     # close the dataset
-- 
2.43.0


From e22bd586a5c3bb2c95b69a5903ad0ca5b4c3bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 084/117] fix: rasters could not be written as cloud optimized
 geotiffs

---
 pyTMD/spatial.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f14e84c..fcd7079 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1212,8 +1212,14 @@ def to_geotiff(
     driver = osgeo.gdal.GetDriverByName(kwargs['driver'])
     # set up the dataset with creation options
     filename = pathlib.Path(filename).expanduser().absolute()
-    ds = driver.Create(str(filename), nx, ny, nband,
-        kwargs['dtype'], kwargs['options'])
+    # some drivers can only copy from an existing raster
+    creatable = (driver.GetMetadataItem('DCAP_CREATE') == 'YES')
+    if creatable:
+        ds = driver.Create(str(filename), nx, ny, nband,
+            kwargs['dtype'], kwargs['options'])
+    else:
+        ds = osgeo.gdal.GetDriverByName('MEM').Create('', nx, ny, nband,
+            kwargs['dtype'])
     # top left x, w-e pixel resolution, rotation
     # top left y, rotation, n-s pixel resolution
     xmin, xmax, ymin, ymax = attributes['extent']
@@ -1237,6 +1243,11 @@ def to_geotiff(
     logging.info(str(filename))
     # close dataset
     ds.FlushCache()
+    # copy raster to the output file
+    if not creatable:
+        ds = driver.CreateCopy(str(filename), ds, options=kwargs['options'])
+    # close the dataset
+    ds = None
 
 def to_parquet(
         output: dict,
-- 
2.43.0


From 178d9d0c85c315d8c6f93ecfc2e807f972151430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 085/117] fix: missing values of masked data were not written
 to geotiffs

---
 pyTMD/spatial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index fcd7079..061618e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1234,11 +1234,14 @@ def to_geotiff(
     # for each band
     for band in range(nband):
         # set fill value for band
+        data = output[varname][:, :, band]
         if '_FillValue' in attributes[varname].keys():
-            fill_value = attributes[varname]['_FillValue']
+            fill_value = float(attributes[varname]['_FillValue'])
             ds.GetRasterBand(band+1).SetNoDataValue(fill_value)
+            # replace missing values with the fill value
+            data = np.ma.filled(data, fill_value=fill_value)
         # write band to geotiff array
-        ds.GetRasterBand(band+1).WriteArray(output[varname][:, :, band])
+        ds.GetRasterBand(band+1).WriteArray(data)
     # print filename if verbose
     logging.info(str(filename))
     # close dataset
-- 
2.43.0


From 6c17ba561b25b0b10bd67d45b7afa213f519aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 086/117] fix: missing values of masked data were not written
 to ascii files

---
 pyTMD/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 061618e..f2b1a88 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -857,7 +857,9 @@ def to_ascii(
     # open the output file
     fid = filename.open(mode='w', encoding='utf8')
     # create a column stack arranging data in column order
-    data_stack = np.c_[[output[col] for col in columns]]
+    # replacing missing values with the fill value of each column
+    data_stack = np.c_[[np.ma.filled(output[col], fill_value=
+        (attributes or {}).get(col, {}).get('_FillValue')) for col in columns]]
     ncol, nrow = np.shape(data_stack)
     # print YAML header to top of file
     if kwargs['header']:
-- 
2.43.0


From 8bda4d9df4bbfc4cede6eedb92e76655c27e9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 087/117] fix: fill values in headers of ascii files were
 compared as text

---
 pyTMD/spatial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f2b1a88..372dc45 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -356,8 +356,11 @@ def from_ascii(filename: str, **kwargs):
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        # attributes in the header are strings
+        fill_value = np.float64(dinput['attributes']['data']['_FillValue'])
+        dinput['attributes']['data']['_FillValue'] = fill_value
+        dinput['data'].fill_value = fill_value
+        dinput['data'].mask = _is_fill_value(dinput['data'].data, fill_value)
     # return the spatial variables
     return dinput
 
-- 
2.43.0


From 2b64f667e7c1608baeeec1944585b686e53dd5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 088/117] fix: reading in-memory ascii files opened in binary
 mode

---
 pyTMD/spatial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 372dc45..94790e3 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -285,7 +285,11 @@ def from_ascii(filename: str, **kwargs):
             file_contents = f.read().decode('ISO-8859-1').splitlines()
     elif (kwargs['compression'] == 'bytes'):
         # read input file object and split lines
-        file_contents = filename.read().splitlines()
+        file_contents = filename.read()
+        # decode file objects in binary mode
+        if isinstance(file_contents, bytes):
+            file_contents = file_contents.decode('utf8')
+        file_contents = file_contents.splitlines()
     else:
         # read input ascii file (.txt, .asc) and split lines
         filename = case_insensitive_filename(filename)
-- 
2.43.0


From c86e80f08b5cacf1f39658e05949f4ecaab2d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 089/117] fix: dates in ascii files were altered before being
 parsed

---
 pyTMD/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 94790e3..f93faee 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -344,19 +344,19 @@ def from_ascii(filename: str, **kwargs):
     # for each line in the file
     for i, line in enumerate(file_contents[header:]):
         # extract columns of interest and assign to dict
-        # convert fortran exponentials if applicable
         if kwargs['delimiter']:
-            column = {c:l.replace('D', 'E') for c, l in
+            column = {c:l for c, l in
                 zip(columns, line.split(kwargs['delimiter']))}
         else:
-            column = {c:r.replace('D', 'E') for c, r in
+            column = {c:r for c, r in
                 zip(columns, rx.findall(line))}
         # copy variables from column dict to output dictionary
         for c in columns:
             if (c == 'time') and kwargs['parse_dates']:
                 dinput[c][i] = timescale.time.parse(column[c])
             else:
-                dinput[c][i] = np.float64(column[c])
+                # convert fortran exponentials if applicable
+                dinput[c][i] = np.float64(column[c].replace('D', 'E'))
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
-- 
2.43.0


From 6fc93545ff60064bbf36fe6a446c00c4274b06b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 090/117] fix: writing geoparquet files without a coordinate
 reference system

---
 pyTMD/spatial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f93faee..f601a88 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1339,7 +1339,6 @@ def to_parquet(
         attrs[b"geo"]["primary_column"] = primary_column
         attrs[b"geo"]["columns"] = {primary_column: {
                 "encoding": 'WKB',
-                "crs": json.loads(srs.ExportToPROJJSON()),
                 "bbox": bbox,
                 "covering": {
                     "bbox": collections.OrderedDict(
@@ -1351,6 +1350,11 @@ def to_parquet(
                 }
             }
         }
+        # add coordinate reference system of the geometry
+        # (files without have longitudes and latitudes by default)
+        if kwargs['crs']:
+            attrs[b"geo"]["columns"][primary_column]["crs"] = \
+                json.loads(srs.ExportToPROJJSON())
     elif kwargs['geoparquet'] and (kwargs['geometry_encoding'] == 'point'):
         raise ValueError('geoarrow encodings are currently unsupported')
     # add attribute for date created
-- 
2.43.0


From 677004342510d6738291b32d00906c966c1f0c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 091/117] fix: reading parquet files without a coordinate
 reference system

---
 pyTMD/spatial.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f601a88..0c86bb2 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -754,17 +754,21 @@ def from_parquet(filename: str, **kwargs):
     if 'geo' in attr.keys():
         # extract crs and encoding from geoparquet metadata
         primary_column = attr['geo']['primary_column']
-        crs_metadata = attr['geo']['columns'][primary_column]['crs']
+        # (default is longitude and latitude if not in the file)
+        crs_metadata = attr['geo']['columns'][primary_column].get('crs',
+            'OGC:CRS84')
         encoding = attr['geo']['columns'][primary_column]['encoding']
         attr['geometry_encoding'] = encoding
         # create spatial reference object from PROJJSON
-        osgeo.osr.UseExceptions()
-        srs = osgeo.osr.SpatialReference()
-        srs.SetFromUserInput(json.dumps(crs_metadata))
-        # add projection information to attributes
-        attr['projection'] = srs.ExportToProj4()
-        attr['wkt'] = srs.ExportToWkt()
-    elif 'pyTMD' in attr.keys():
+        if crs_metadata is not None:
+            osgeo.osr.UseExceptions()
+            srs = osgeo.osr.SpatialReference()
+            srs.SetFromUserInput(crs_metadata if isinstance(crs_metadata, str)
+                else json.dumps(crs_metadata))
+            # add projection information to attributes
+            attr['projection'] = srs.ExportToProj4()
+            attr['wkt'] = srs.ExportToWkt()
+    elif 'crs' in attr.get('pyTMD', {}):
         # extract crs from pyTMD metadata
         crs_metadata = attr['pyTMD']['crs']
         # create spatial reference object from PROJJSON
-- 
2.43.0


From d3b521bc27c70d59f054760e72ef70c6f6086dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 092/117] fix: reading parquet files with an index and a column
 of times

---
 pyTMD/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 0c86bb2..41bb7b6 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -735,7 +735,9 @@ def from_parquet(filename: str, **kwargs):
     dinput = pd.read_parquet(filename)
     # reset the dataframe index if not a range index
     if not isinstance(dinput.index, pd.RangeIndex):
-        dinput.reset_index(inplace=True, names=kwargs['index'])
+        # drop the index if already a column of the file
+        dinput.reset_index(inplace=True, names=kwargs['index'],
+            drop=(kwargs['index'] in dinput.columns))
     # output parquet file information
     attr = {}
     # get parquet file metadata
-- 
2.43.0


From 4c7dbbfbc64cf2a2ff0d8e0574895b47a8b5adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 093/117] fix: other files could be found when searching
 without case dependence

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 41bb7b6..7bd5eff 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -177,7 +177,7 @@ def case_insensitive_filename(filename: str | pathlib.Path):
     if not filename.exists():
         # search for filename without case dependence
         f = [f.name for f in filename.parent.iterdir() if
-            re.match(filename.name, f.name, re.I)]
+            (f.name.casefold() == filename.name.casefold())]
         # raise error if no file found
         if not f:
             raise FileNotFoundError(str(filename))
-- 
2.43.0


From c812ea11bb7287ce35d2e9e9d650c1d2f407534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 094/117] fix: incomplete downloads were reported as complete

---
 pyTMD/utilities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 0a3ce57..e0d9974 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -879,6 +879,10 @@ def from_http(
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
         remote_buffer.seek(0)
+        # verify that the complete file was transferred
+        if getattr(response, 'length', None):
+            raise Exception('Incomplete download from {0}'.format(
+                posixpath.join(*HOST)))
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
         # generate checksum hash for remote file
@@ -1445,6 +1449,10 @@ def from_cddis(
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
         remote_buffer.seek(0)
+        # verify that the complete file was transferred
+        if getattr(response, 'length', None):
+            raise Exception('Incomplete download from {0}'.format(
+                posixpath.join(*HOST)))
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
         # generate checksum hash for remote file
-- 
2.43.0


From 683cf768536f0ec96d2eba21e17770e090ecb3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:40 +0000
Subject: [PATCH 095/117] fix: ftp downloads without a modification time failed
 after being written

---
 pyTMD/utilities.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index e0d9974..984a084 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -664,8 +664,14 @@ def from_ftp(
         # generate checksum hash for remote file
         remote_hash = hashlib.md5(remote_buffer.getvalue()).hexdigest()
         # get last modified date of remote file and convert into unix time
-        mdtm = ftp.sendcmd(f'MDTM {ftp_remote_path}')
-        remote_mtime = get_unix_time(mdtm[4:], format="%Y%m%d%H%M%S")
+        # (not all servers provide modification times)
+        remote_mtime = None
+        try:
+            mdtm = ftp.sendcmd(f'MDTM {ftp_remote_path}')
+        except ftplib.error_perm:
+            pass
+        else:
+            remote_mtime = get_unix_time(mdtm[4:], format="%Y%m%d%H%M%S")
         # compare checksums
         if local and (hash != remote_hash):
             # convert to absolute path
@@ -682,7 +688,8 @@ def from_ftp(
             # change the permissions mode
             local.chmod(mode)
             # keep remote modification time of file and local access time
-            os.utime(local, (local.stat().st_atime, remote_mtime))
+            if remote_mtime is not None:
+                os.utime(local, (local.stat().st_atime, remote_mtime))
         # close the ftp connection
         ftp.close()
         # return the bytesIO object
-- 
2.43.0


From 22f4445e63d74cf2e1894d41679049339aedea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 096/117] fix: dates with a time zone were converted as
 coordinated universal time

---
 pyTMD/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 984a084..396460b 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -402,7 +402,8 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # account for offsets from coordinated universal time (if any)
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-- 
2.43.0


From 800a5844843697137916320343d5de9e6451ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 097/117] fix: unix times of dates depended on the time zone of
 the machine

---
 pyTMD/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 396460b..e90ca45 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -67,7 +67,7 @@ import importlib
 import posixpath
 import subprocess
 import lxml.etree
-import calendar, time
+import calendar, time, datetime
 import dateutil.parser
 if sys.version_info[0] == 2:
     from urllib import quote_plus
@@ -410,6 +410,9 @@ def get_unix_time(
     except (TypeError, ValueError):
         return None
     else:
+        # assume coordinated universal time if without a time zone
+        if parsed_time.tzinfo is None:
+            parsed_time = parsed_time.replace(tzinfo=datetime.timezone.utc)
         return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
-- 
2.43.0


From 6d3b21a7a82c3d607c9199220da1dd9db788947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 098/117] fix: dates out of range raised errors in place of
 returning none

---
 pyTMD/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index e90ca45..6a361d5 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -407,7 +407,7 @@ def get_unix_time(
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return None
     else:
         # assume coordinated universal time if without a time zone
@@ -428,7 +428,7 @@ def isoformat(time_string: str):
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return None
     else:
         return parsed_time.isoformat()
-- 
2.43.0


From b2217342967c7549af2f6ba365aa539ed4da0ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 099/117] fix: modification times of ftp servers with fractions
 of seconds

---
 pyTMD/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 6a361d5..0079b3b 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -577,7 +577,7 @@ def ftp_list(
                 pass
             else:
                 # convert the modification time into unix time
-                mtimes[i] = get_unix_time(mdtm[4:], format="%Y%m%d%H%M%S")
+                mtimes[i] = get_unix_time(mdtm[4:18], format="%Y%m%d%H%M%S")
         # reduce to basenames
         if basename:
             output = [posixpath.basename(i) for i in output]
@@ -675,7 +675,7 @@ def from_ftp(
         except ftplib.error_perm:
             pass
         else:
-            remote_mtime = get_unix_time(mdtm[4:], format="%Y%m%d%H%M%S")
+            remote_mtime = get_unix_time(mdtm[4:18], format="%Y%m%d%H%M%S")
         # compare checksums
         if local and (hash != remote_hash):
             # convert to absolute path
-- 
2.43.0


From ec8772b3ac29b0d8da05ee50da7a1bc3c32dba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 100/117] fix: incomplete directory listings were reported as
 complete

---
 pyTMD/utilities.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 0079b3b..49c60da 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -811,7 +811,8 @@ def http_list(
         raise Exception(msg) from exc
     else:
         # read and parse request for files (column names and modified times)
-        tree = lxml.etree.parse(response, parser)
+        # (reading the complete response to verify its length)
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
         colnames = tree.xpath('//tr/td[not(@*)]//a/@href')
         # get the Unix timestamp value for a modification time
         collastmod = [get_unix_time(i,format=format)
@@ -1351,7 +1352,9 @@ def cddis_list(
         # Create and submit request.
         request = urllib2.Request(posixpath.join(*HOST))
         request.add_header("Authorization", authorization_header)
-        tree = lxml.etree.parse(urllib2.urlopen(request, timeout=timeout), parser)
+        response = urllib2.urlopen(request, timeout=timeout)
+        # read the complete response to verify its length
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
     except:
         raise Exception('List error from {0}'.format(posixpath.join(*HOST)))
     else:
@@ -1532,7 +1535,8 @@ def iers_list(
         raise Exception(msg) from exc
     else:
         # read and parse request for files (column names and modified times)
-        tree = lxml.etree.parse(response, parser)
+        # (reading the complete response to verify its length)
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
         colnames = tree.xpath('//tr/td[@class="$tdclass"][4]//a/@href')
         # get the Unix timestamp value for a modification time
         collastmod = [get_unix_time(i,format='%Y-%m-%d')
@@ -1638,7 +1642,8 @@ def uhslc_list(
         raise Exception(msg) from exc
     else:
         # read and parse request for files
-        tree = lxml.etree.parse(response, parser)
+        # (reading the complete response to verify its length)
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
         colnames = tree.xpath('//a/text()')
         # reduce using regular expression pattern
         if pattern:
-- 
2.43.0


From 7b626d66260653afd1a11bfc8f137414f6bed6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 101/117] fix: modification times of listings were paired with
 other entries

---
 pyTMD/utilities.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 49c60da..16c7fee 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -813,10 +813,15 @@ def http_list(
         # read and parse request for files (column names and modified times)
         # (reading the complete response to verify its length)
         tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
-        colnames = tree.xpath('//tr/td[not(@*)]//a/@href')
-        # get the Unix timestamp value for a modification time
-        collastmod = [get_unix_time(i,format=format)
-            for i in tree.xpath('//tr/td[@align="right"][1]/text()')]
+        colnames, collastmod = ([], [])
+        for row in tree.xpath('//tr'):
+            hrefs = row.xpath('./td[not(@*)]//a/@href')
+            # get the Unix timestamp value for a modification time
+            # (not all entries have a modification time)
+            mtimes = [get_unix_time(i,format=format)
+                for i in row.xpath('./td[@align="right"][1]/text()')]
+            colnames.extend(hrefs)
+            collastmod.extend((mtimes[:1] or [None])*len(hrefs))
         # reduce using regular expression pattern
         if pattern:
             i = [i for i,f in enumerate(colnames) if re.search(pattern, f)]
@@ -1363,10 +1368,14 @@ def cddis_list(
         colnames = tree.xpath('//div[@class="archiveDir"]/div/a/text()')
         collastmod = [None]*(len(colnames))
         # find files
-        colnames.extend(tree.xpath('//div[@class="archiveItem"]/div/a/text()'))
-        # get the Unix timestamp value for a modification time
-        collastmod.extend([get_unix_time(i[:19], format='%Y:%m:%d %H:%M:%S')
-            for i in tree.xpath('//div[@class="archiveItem"]/div/span/text()')])
+        for item in tree.xpath('//div[@class="archiveItem"]'):
+            names = item.xpath('./div/a/text()')
+            # get the Unix timestamp value for a modification time
+            # (not all entries have a modification time)
+            mtimes = [get_unix_time(i[:19], format='%Y:%m:%d %H:%M:%S')
+                for i in item.xpath('./div/span/text()')]
+            colnames.extend(names)
+            collastmod.extend((mtimes[:1] or [None])*len(names))
         # reduce using regular expression pattern
         if pattern:
             i = [i for i,f in enumerate(colnames) if re.search(pattern, f)]
@@ -1537,10 +1546,15 @@ def iers_list(
         # read and parse request for files (column names and modified times)
         # (reading the complete response to verify its length)
         tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
-        colnames = tree.xpath('//tr/td[@class="$tdclass"][4]//a/@href')
-        # get the Unix timestamp value for a modification time
-        collastmod = [get_unix_time(i,format='%Y-%m-%d')
-            for i in tree.xpath('//tr/td[@class="$tdclass"][2]/span/text()')]
+        colnames, collastmod = ([], [])
+        for row in tree.xpath('//tr'):
+            hrefs = row.xpath('./td[@class="$tdclass"][4]//a/@href')
+            # get the Unix timestamp value for a modification time
+            # (not all entries have a modification time)
+            mtimes = [get_unix_time(i,format='%Y-%m-%d')
+                for i in row.xpath('./td[@class="$tdclass"][2]/span/text()')]
+            colnames.extend(hrefs)
+            collastmod.extend((mtimes[:1] or [None])*len(hrefs))
         # sort list of column names and last modified times in reverse order
         # return the list of column names and last modified times
         return (colnames[::-1], collastmod[::-1])
-- 
2.43.0


From 43edd2904ad5833fbf63055c5ff64ca48b336401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 102/117] fix: retrying a login with a supplied password raised
 an error

---
 pyTMD/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 16c7fee..d1f480b 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -1041,6 +1041,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From 4671b807c16385b531db72bdeaef14d66fe2e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 103/117] fix: environmental credentials were not used for the
 token interface

---
 pyTMD/utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index d1f480b..a055a90 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -1003,10 +1003,15 @@ def attempt_login(
         OpenerDirector instance
     """
     # set default keyword arguments
-    kwargs.setdefault('username', os.environ.get('EARTHDATA_USERNAME'))
-    kwargs.setdefault('password', os.environ.get('EARTHDATA_PASSWORD'))
+    kwargs.setdefault('username', None)
+    kwargs.setdefault('password', None)
     kwargs.setdefault('retries', 5)
     kwargs.setdefault('netrc', os.path.expanduser('~/.netrc'))
+    # use environmental variables for credentials that are not supplied
+    if kwargs['username'] is None:
+        kwargs['username'] = os.environ.get('EARTHDATA_USERNAME')
+    if kwargs['password'] is None:
+        kwargs['password'] = os.environ.get('EARTHDATA_PASSWORD')
     try:
         # only necessary on jupyterhub
         os.chmod(kwargs['netrc'], 0o600)
-- 
2.43.0


From 93d6b63357fbac1a2140dbb0f74cb2246ecf4d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 104/117] fix: coordinates of csv files with the default column
 names were not found

---
 scripts/compute_LPET_elevations.py   | 4 +++-
 scripts/compute_LPT_displacements.py | 4 +++-
 scripts/compute_OPT_displacements.py | 4 +++-
 scripts/compute_SET_displacements.py | 4 +++-
 scripts/compute_tidal_currents.py    | 4 +++-
 scripts/compute_tidal_elevations.py  | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index ecf28eb..1c4baac 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -160,7 +160,9 @@ def compute_LPET_elevations(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # use the names of the coordinates in the other formats
+        columns = [{'lat':'y','lon':'x'}.get(v,v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index 3ffc1ff..ee7e38b 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -184,7 +184,9 @@ def compute_LPT_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # use the names of the coordinates in the other formats
+        columns = [{'lat':'y','lon':'x'}.get(v,v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index bcf6b89..76da234 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -204,7 +204,9 @@ def compute_OPT_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # use the names of the coordinates in the other formats
+        columns = [{'lat':'y','lon':'x'}.get(v,v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 2998f85..763d50d 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -182,7 +182,9 @@ def compute_SET_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # use the names of the coordinates in the other formats
+        columns = [{'lat':'y','lon':'x'}.get(v,v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 8b00373..2d2d3fe 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -251,7 +251,9 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # use the names of the coordinates in the other formats
+        columns = [{'lat':'y','lon':'x'}.get(v,v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 7c7bd6d..51075ee 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -259,7 +259,9 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # use the names of the coordinates in the other formats
+        columns = [{'lat':'y','lon':'x'}.get(v,v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
-- 
2.43.0


From efb62869efc891c8e43b1c6d103fdeb99de29dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 105/117] fix: netCDF4 and HDF5 files without times could not
 be used with delta times from the command line

---
 scripts/compute_LPET_elevations.py   | 6 ++++++
 scripts/compute_LPT_displacements.py | 6 ++++++
 scripts/compute_OPT_displacements.py | 6 ++++++
 scripts/compute_SET_displacements.py | 6 ++++++
 scripts/compute_tidal_currents.py    | 6 ++++++
 scripts/compute_tidal_elevations.py  | 6 ++++++
 6 files changed, 36 insertions(+)

diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index 1c4baac..3d10aba 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -167,11 +167,17 @@ def compute_LPET_elevations(input_file, output_file,
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
     elif (FORMAT == 'HDF5'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_HDF5(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index ee7e38b..b0491c1 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -191,11 +191,17 @@ def compute_LPT_displacements(input_file, output_file,
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
     elif (FORMAT == 'HDF5'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_HDF5(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index 76da234..034a4fa 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -211,11 +211,17 @@ def compute_OPT_displacements(input_file, output_file,
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
     elif (FORMAT == 'HDF5'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_HDF5(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 763d50d..a6671f1 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -189,11 +189,17 @@ def compute_SET_displacements(input_file, output_file,
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
     elif (FORMAT == 'HDF5'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_HDF5(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 2d2d3fe..0f93d05 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -258,11 +258,17 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
     elif (FORMAT == 'HDF5'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_HDF5(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 51075ee..87685cd 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -266,11 +266,17 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_netCDF4(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
     elif (FORMAT == 'HDF5'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
+        # times are from the command line if entered
+        if TIME is not None:
+            field_mapping.pop('time', None)
         dinput = pyTMD.spatial.from_HDF5(input_file,
             field_mapping=field_mapping)
         attributes = dinput['attributes']
-- 
2.43.0


From ebc0ff0c3d9f6bbcc75b4dcc733f8fac3851839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 106/117] fix: attributes without values could not be written
 by the tide programs

---
 scripts/compute_tidal_currents.py   | 3 +++
 scripts/compute_tidal_elevations.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 0f93d05..a6c8b25 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -423,6 +423,9 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     attrib['time']['long_name'] = 'Time'
     attrib['time']['calendar'] = 'standard'
 
+    # remove attributes without values (e.g. from definition files)
+    attrib = {key:{k:v for k,v in val.items() if v is not None}
+        for key,val in attrib.items()}
     # output data dictionary
     output = {'lon':lon, 'lat':lat, **tide}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 87685cd..438ee62 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -421,6 +421,9 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     attrib['time']['long_name'] = 'Time'
     attrib['time']['calendar'] = 'standard'
 
+    # remove attributes without values (e.g. from definition files)
+    attrib = {key:{k:v for k,v in val.items() if v is not None}
+        for key,val in attrib.items()}
     # output data dictionary
     output = {'lon':lon, 'lat':lat, output_variable:tide}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
-- 
2.43.0


From 8ffb33d429003ca3c5404c33ac6c522eb66e8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 107/117] fix: single stations could not be used by the tide
 programs

---
 scripts/compute_tidal_currents.py   | 2 +-
 scripts/compute_tidal_elevations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index a6c8b25..92d41d7 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -294,7 +294,7 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     elif (TYPE == 'drift'):
         lon, lat = transformer.transform(dinput['x'], dinput['y'])
     elif (TYPE == 'time series'):
-        nstation = len(dinput['y'])
+        nstation = len(np.ravel(dinput['y']))
         lon, lat = transformer.transform(dinput['x'], dinput['y'])
 
     # extract time units from netCDF4 and HDF5 attributes or from TIME_UNITS
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 438ee62..8e6b8f1 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -302,7 +302,7 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     elif (TYPE == 'drift'):
         lon, lat = transformer.transform(dinput['x'], dinput['y'])
     elif (TYPE == 'time series'):
-        nstation = len(dinput['y'])
+        nstation = len(np.ravel(dinput['y']))
         lon, lat = transformer.transform(dinput['x'], dinput['y'])
 
     # extract time units from netCDF4 and HDF5 attributes or from TIME_UNITS
-- 
2.43.0


From e33580127f810d35f08de1518175a7d294883e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 108/117] fix: solid earth tides of grids could not be computed
 and were for the next day

---
 scripts/compute_SET_displacements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index a6671f1..f996f93 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -253,7 +253,7 @@ def compute_SET_displacements(input_file, output_file,
     units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
 
     # convert input coordinates to cartesian
-    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat,
+    X, Y, Z = pyTMD.spatial.to_cartesian(np.ravel(lon), np.ravel(lat),
         a_axis=units.a_axis, flat=units.flat)
     # compute ephemerides for lunisolar coordinates
     SX, SY, SZ = pyTMD.astro.solar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
@@ -284,7 +284,7 @@ def compute_SET_displacements(input_file, output_file,
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From 0a0f1d59b1843287b9048e4daf0819d122a45d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 109/117] fix: FES2014 currents could not be downloaded

---
 scripts/aviso_fes_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 41f6933..3dc80d2 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -206,8 +206,8 @@ def aviso_fes_tar(MODEL, f, logger,
         FES['FES2014'].append([subdir,'readme_fes2014_currents_v1.2.txt'])
         FES['FES2014'].append([subdir,'eastward_velocity.tar.xz'])
         FES['FES2014'].append([subdir,'northward_velocity.tar.xz'])
-        TAR['FES2014'].extend(['r'])
-        FLATTEN['FES2014'].extend([False])
+        TAR['FES2014'].extend([None,'r','r'])
+        FLATTEN['FES2014'].extend([None,False,False])
 
     # for each file for a model
     for remotepath,tarmode,flatten in zip(FES[MODEL],TAR[MODEL],FLATTEN[MODEL]):
-- 
2.43.0


From 75cac47d241b1c3dfd2b0d5cffddb9426c84e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 110/117] fix: files which are not renamed were compressed by
 the download programs

---
 scripts/aviso_fes_tides.py | 9 ++++++---
 scripts/gsfc_got_tides.py  | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 3dc80d2..14e84b3 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -289,9 +289,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
     ):
     # remote and local directory for data product
     remote_file = posixpath.join('auxiliary','tide_model',*remote_path)
-    # if compressing the output file
-    opener = gzip.open if GZIP else open
-
     # Printing files transferred
     remote_ftp_url = posixpath.join('ftp://', ftp.host, remote_file)
     logger.info(f'{remote_ftp_url} -->')
@@ -309,6 +306,8 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             base, sfx = posixpath.splitext(m.name)
             # extract file contents to new file
             output = f'{member}.gz' if sfx in ('.asc','.nc') and GZIP else member
+            # if compressing the output file
+            opener = gzip.open if sfx in ('.asc','.nc') and GZIP else open
             local_file = local_dir.joinpath(*posixpath.split(output))
             # check if the local file exists
             if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
@@ -335,6 +334,8 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         base, sfx = posixpath.splitext(stem)
         # extract file contents to new file
         output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        # if compressing the output file
+        opener = gzip.open if sfx in ('.asc','.nc') and GZIP else open
         local_file = local_dir.joinpath(output)
         # check if the local file exists
         if local_file.exists() and newer(mtime,local_file.stat().st_mtime):
@@ -362,6 +363,8 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         base, sfx = posixpath.splitext(stem)
         # output file name for compressed and uncompressed cases
         output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        # if compressing the output file
+        opener = gzip.open if sfx in ('.asc','.nc') and GZIP else open
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 72b42b6..b130c98 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -60,8 +60,6 @@ def gsfc_got_tides(MODEL: str,
 
     # create logger for verbosity level
     logger = pyTMD.utilities.build_logger(__name__,level=logging.INFO)
-    # if compressing the output files
-    opener = gzip.open if GZIP else open
 
     # url for each tide model tarfile
     PATH = {}
@@ -107,6 +105,8 @@ def gsfc_got_tides(MODEL: str,
             continue
         # output file name
         output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
+        # if compressing the output file
+        opener = gzip.open if sfx in ('.d','.nc') and GZIP else open
         local_file = DIRECTORY.joinpath(*posixpath.split(output))
         # check if the local file exists
         if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
-- 
2.43.0


From 27e0641d68e2f8d990f4f0bf0bda4746f1d32644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 111/117] fix: partial files of interrupted downloads were kept
 as complete

---
 scripts/aviso_fes_tides.py | 30 +++++++++++++++++++++---------
 scripts/gsfc_got_tides.py  | 10 +++++++---
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 14e84b3..17bad39 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -319,12 +319,16 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             # recursively create output directory if non-existent
             local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
             # extract file to local directory
-            with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
+            # (write to a temporary file until complete)
+            temp_file = local_file.with_name(f'{local_file.name}.part')
+            with tar.extractfile(m) as fi,opener(temp_file, 'wb') as fo:
                 shutil.copyfileobj(fi, fo)
             # get last modified date of remote file within tar file
             # keep remote modification time of file and local access time
-            os.utime(local_file, (local_file.stat().st_atime, m.mtime))
-            local_file.chmod(mode=MODE)
+            os.utime(temp_file, (temp_file.stat().st_atime, m.mtime))
+            temp_file.chmod(mode=MODE)
+            # move complete file into place
+            temp_file.replace(local_file)
     elif LZMA:
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
@@ -351,12 +355,16 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         ftp.retrbinary(f'RETR {remote_file}', fileobj.write, blocksize=CHUNK)
         fileobj.seek(0)
         # decompress lzma file and extract contents to local directory
-        with lzma.open(fileobj) as fi,opener(local_file, 'wb') as fo:
+        # (write to a temporary file until complete)
+        temp_file = local_file.with_name(f'{local_file.name}.part')
+        with lzma.open(fileobj) as fi,opener(temp_file, 'wb') as fo:
             shutil.copyfileobj(fi, fo)
         # get last modified date of remote file within tar file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, mtime))
+        temp_file.chmod(mode=MODE)
+        # move complete file into place
+        temp_file.replace(local_file)
     else:
         # copy readme and uncompressed files directly
         stem = posixpath.basename(remote_file)
@@ -379,11 +387,15 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
         # copy remote file contents to local file
-        with opener(local_file, 'wb') as f:
+        # (write to a temporary file until complete)
+        temp_file = local_file.with_name(f'{local_file.name}.part')
+        with opener(temp_file, 'wb') as f:
             ftp.retrbinary(f'RETR {remote_file}', f.write, blocksize=CHUNK)
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, mtime))
+        temp_file.chmod(mode=MODE)
+        # move complete file into place
+        temp_file.replace(local_file)
 
 # PURPOSE: compare the modification time of two files
 def newer(t1: int, t2: int) -> bool:
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index b130c98..0922b47 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -118,12 +118,16 @@ def gsfc_got_tides(MODEL: str,
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
         # extract file to local directory
-        with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
+        # (write to a temporary file until complete)
+        temp_file = local_file.with_name(f'{local_file.name}.part')
+        with tar.extractfile(m) as fi,opener(temp_file, 'wb') as fo:
             shutil.copyfileobj(fi, fo)
         # get last modified date of remote file within tar file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, m.mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, m.mtime))
+        temp_file.chmod(mode=MODE)
+        # move complete file into place
+        temp_file.replace(local_file)
 
 # PURPOSE: compare the modification time of two files
 def newer(t1: int, t2: int) -> bool:
-- 
2.43.0


From 0a62e236007320510737c40d7a80b01ae392ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 112/117] fix: modification times with fractions of seconds
 were not read from AVISO

---
 scripts/aviso_fes_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 17bad39..cadca7a 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -332,7 +332,7 @@ def ftp_download(logger, ftp, remote_path, local_dir,
     elif LZMA:
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
-        mtime = calendar.timegm(time.strptime(mdtm[4:],"%Y%m%d%H%M%S"))
+        mtime = calendar.timegm(time.strptime(mdtm[4:18],"%Y%m%d%H%M%S"))
         # output file name for compressed and uncompressed cases
         stem = posixpath.basename(posixpath.splitext(remote_file)[0])
         base, sfx = posixpath.splitext(stem)
@@ -376,7 +376,7 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
-        mtime = calendar.timegm(time.strptime(mdtm[4:],"%Y%m%d%H%M%S"))
+        mtime = calendar.timegm(time.strptime(mdtm[4:18],"%Y%m%d%H%M%S"))
         # check if the local file exists
         if local_file.exists() and newer(mtime, local_file.stat().st_mtime):
             # check the modification time of the local file
-- 
2.43.0


From 51ea6732a755bf7fd29da75450fcbdf62bf0d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 113/117] fix: logs of AVISO downloads could not be written to
 new directories

---
 scripts/aviso_fes_tides.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index cadca7a..dc1536c 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -95,6 +95,9 @@ def aviso_fes_tides(MODEL: str,
         MODE: oct = 0o775
     ):
 
+    # recursively create directories if non-existent
+    DIRECTORY = pathlib.Path(DIRECTORY).expanduser().absolute()
+    DIRECTORY.mkdir(MODE, parents=True, exist_ok=True)
     # connect and login to AVISO ftp server
     f = ftplib.FTP('ftp-access.aviso.altimetry.fr', timeout=TIMEOUT)
     f.login(USER, PASSWORD)
-- 
2.43.0


From b82c41ff98fc821459654ee6b93f2bbb4995c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 114/117] fix: deprecated functions for times could not be
 called

---
 pyTMD/time.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyTMD/time.py b/pyTMD/time.py
index c5400b0..8ee7578 100644
--- a/pyTMD/time.py
+++ b/pyTMD/time.py
@@ -54,6 +54,8 @@ import logging
 import warnings
 import numpy as np
 import timescale.time
+# (name of package is used for a class within the module)
+import timescale.time as _time
 
 __all__ = [
     "parse",
@@ -109,7 +111,7 @@ def parse(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse",
         DeprecationWarning)
-    return timescale.time.parse(date_string)
+    return _time.parse(date_string)
 
 # PURPOSE: parse a date string into epoch and units scale
 def parse_date_string(date_string: str):
@@ -133,7 +135,7 @@ def parse_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse_date_string",
         DeprecationWarning)
-    return timescale.time.parse_date_string(date_string)
+    return _time.parse_date_string(date_string)
 
 # PURPOSE: split a date string into units and epoch
 def split_date_string(date_string: str):
@@ -147,7 +149,7 @@ def split_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.split_date_string",
         DeprecationWarning)
-    return timescale.time.split_date_string(date_string)
+    return _time.split_date_string(date_string)
 
 # PURPOSE: convert a datetime object into a list
 def datetime_to_list(date):
@@ -166,7 +168,7 @@ def datetime_to_list(date):
     """
     warnings.warn("Deprecated. Please use timescale.time.datetime_to_list",
         DeprecationWarning)
-    return timescale.time.datetime_to_list(date)
+    return _time.datetime_to_list(date)
 
 # days per month in a leap and a standard year
 # only difference is February (29 vs. 28)
@@ -190,7 +192,7 @@ def calendar_days(year: int | float | np.ndarray) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.calendar_days",
         DeprecationWarning)
-    return timescale.time.calendar_days(year)
+    return _time.calendar_days(year)
 
 # PURPOSE: convert a numpy datetime array to delta times since an epoch
 def convert_datetime(*args, **kwargs):
@@ -211,7 +213,7 @@ def convert_datetime(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_datetime",
         DeprecationWarning)
-    return timescale.time.convert_datetime(*args, **kwargs)
+    return _time.convert_datetime(*args, **kwargs)
 
 # PURPOSE: convert times from seconds since epoch1 to time since epoch2
 def convert_delta_time(*args, **kwargs):
@@ -231,7 +233,7 @@ def convert_delta_time(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_delta_time",
         DeprecationWarning)
-    return timescale.time.convert_delta_time(*args, **kwargs)
+    return _time.convert_delta_time(*args, **kwargs)
 
 # PURPOSE: calculate the delta time from calendar date
 # http://scienceworld.wolfram.com/astronomy/JulianDate.html
@@ -265,7 +267,7 @@ def convert_calendar_dates(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_dates",
         DeprecationWarning)
-    return timescale.time.convert_calendar_dates(*args, **kwargs)
+    return _time.convert_calendar_dates(*args, **kwargs)
 
 # PURPOSE: Converts from calendar dates into decimal years
 def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
@@ -297,7 +299,7 @@ def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_calendar_decimal(*args, **kwargs)
+    return _time.convert_calendar_decimal(*args, **kwargs)
 
 # PURPOSE: Converts from Julian day to calendar date and time
 def convert_julian(*args, **kwargs):
@@ -335,7 +337,7 @@ def convert_julian(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_julian(*args, **kwargs)
+    return _time.convert_julian(*args, **kwargs)
 
 # delta time (TT - UT1) file
 _delta_file = timescale.utilities.get_data_path(['data','merged_deltat.data'])
-- 
2.43.0


From dfe0698e0c2d7fcf3df19cbc318340ab350aeabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 115/117] fix: positional arguments of deprecated functions for
 Earth orientation

---
 pyTMD/eop.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/eop.py b/pyTMD/eop.py
index c07221c..e6ff870 100644
--- a/pyTMD/eop.py
+++ b/pyTMD/eop.py
@@ -47,7 +47,7 @@ _mean_pole_file = timescale.utilities.get_data_path(['data','mean-pole.tab'])
 _finals_file = timescale.utilities.get_data_path(['data','finals.all'])
 
 # PURPOSE: connects to servers and downloads mean pole files
-def update_mean_pole(**kwargs):
+def update_mean_pole(*args, **kwargs):
     """
     Connects to servers to download mean-pole.tab files from HPIERS servers
 
@@ -67,10 +67,10 @@ def update_mean_pole(**kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.update_mean_pole",
         DeprecationWarning)
-    timescale.eop.update_mean_pole(**kwargs)
+    timescale.eop.update_mean_pole(*args, **kwargs)
 
 # PURPOSE: read table of IERS pole coordinates and calculate Gaussian average
-def calculate_mean_pole(**kwargs):
+def calculate_mean_pole(*args, **kwargs):
     """
     Calculates the mean pole coordinates x and y are obtained by a
     Gaussian-weighted average of the IERS pole coordinates
@@ -92,7 +92,7 @@ def calculate_mean_pole(**kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.calculate_mean_pole",
         DeprecationWarning)
-    timescale.eop.calculate_mean_pole(**kwargs)
+    timescale.eop.calculate_mean_pole(*args, **kwargs)
 
 # PURPOSE: connects to servers and downloads IERS pole coordinates files
 def pull_pole_coordinates(*args, **kwargs):
@@ -122,7 +122,7 @@ def pull_pole_coordinates(*args, **kwargs):
     timescale.eop.pull_pole_coordinates(*args, **kwargs)
 
 # PURPOSE: connects to servers and downloads finals files
-def update_finals_file(**kwargs):
+def update_finals_file(*args, **kwargs):
     """
     Connects to servers and downloads finals EOP files
 
@@ -148,7 +148,7 @@ def update_finals_file(**kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.pull_pole_coordinates",
         DeprecationWarning)
-    timescale.eop.update_finals_file(**kwargs)
+    timescale.eop.update_finals_file(*args, **kwargs)
 
 # IERS mean or secular pole conventions
 _conventions = ('2003', '2010', '2015', '2018')
@@ -189,7 +189,7 @@ def iers_mean_pole(*args, **kwargs):
     return timescale.eop.iers_mean_pole(*args, **kwargs)
 
 # PURPOSE: read daily earth orientation parameters (EOP) file from IERS
-def iers_daily_EOP(**kwargs):
+def iers_daily_EOP(*args, **kwargs):
     """
     Read daily earth orientation parameters (EOP) file from IERS
     :cite:p:`Petit:2010tp`
@@ -210,7 +210,7 @@ def iers_daily_EOP(**kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.iers_daily_EOP",
         DeprecationWarning)
-    return timescale.eop.iers_daily_EOP(**kwargs)
+    return timescale.eop.iers_daily_EOP(*args, **kwargs)
 
 def iers_polar_motion(*args, **kwargs):
     """
-- 
2.43.0


From cdc0b86a64d20de81499b4b06aa231a23382aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:45 +0000
Subject: [PATCH 116/117] fix: interactive maps could not be created without
 choosing markers

---
 pyTMD/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/tools.py b/pyTMD/tools.py
index 9616eb6..a265077 100644
--- a/pyTMD/tools.py
+++ b/pyTMD/tools.py
@@ -191,6 +191,7 @@ class leaflet:
         kwargs.setdefault('scale_control',False)
         kwargs.setdefault('cursor_control',True)
         kwargs.setdefault('layer_control',True)
+        kwargs.setdefault('marker_control',False)
         kwargs.setdefault('center',(39,-108))
         # create basemap in projection
         if (projection == 'Global'):
-- 
2.43.0


From a0232a68b6192f2115476bac0050f40c9a66e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:31 +0000
Subject: [PATCH 117/117] fix: rows of binary and ascii model files cut short
 were filled with a single value

---
 pyTMD/io/FES.py  |  4 ++--
 pyTMD/io/GOT.py  |  4 ++--
 pyTMD/io/OTIS.py | 16 ++++++++--------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index e2661af..827bfbd 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -642,9 +642,9 @@ def read_ascii_file(
         for j1 in range(0, nlon, 30):
             j2 = np.minimum(j1 + 30, nlon)
             amplitude_data = file_contents[i1].split()
-            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32).reshape(j2-j1)
             phase_data = file_contents[i1+1].split()
-            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32).reshape(j2-j1)
             i1 += 2
     # calculate complex form of constituent oscillation
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 24d1e31..f792eb3 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -597,9 +597,9 @@ def read_ascii_file(
         for j1 in range(0, nlon, 11):
             j2 = np.minimum(j1 + 11, nlon)
             amplitude_data = file_contents[l1].split()
-            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32).reshape(j2-j1)
             phase_data = file_contents[l2].split()
-            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32).reshape(j2-j1)
             l1 += 1
             l2 += 1
     # set masks
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 373a56a..1844ff8 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1079,7 +1079,7 @@ def read_atlas_grid(input_file: str | pathlib.Path):
         fid.seek(8,1)
         depth = np.ma.zeros((ny1,nx1))
         depth.mask = np.ones((ny1,nx1), dtype=bool)
-        depth.data[jz-1,iz-1] = np.fromfile(fid, dtype=np.dtype('>f4'), count=nd)
+        depth.data[jz-1,iz-1] = np.fromfile(fid, dtype=np.dtype('>f4'), count=nd).reshape(nd)
         depth.mask[jz-1,iz-1] = False
         fid.seek(4,1)
         # save to dictionary
@@ -1218,7 +1218,7 @@ def read_otis_elevation(
     h = np.ma.zeros((ny, nx), dtype=np.complex64)
     h.mask = np.zeros((ny, nx), dtype=bool)
     for i in range(ny):
-        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nx)
+        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nx).reshape(2*nx)
         h.data.real[i,:] = temp[0:2*nx-1:2]
         h.data.imag[i,:] = temp[1:2*nx:2]
     # update mask for nan values
@@ -1275,7 +1275,7 @@ def read_atlas_elevation(
     h = np.ma.zeros((ny, nx), dtype=np.complex64)
     h.mask = np.zeros((ny, nx), dtype=bool)
     for i in range(ny):
-        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nx)
+        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nx).reshape(2*nx)
         h.data.real[i,:] = temp[0:2*nx-1:2]
         h.data.imag[i,:] = temp[1:2*nx:2]
     # skip records after constituent
@@ -1313,7 +1313,7 @@ def read_atlas_elevation(
             # real and imaginary components of elevation
             h1 = np.ma.zeros((ny1,nx1), fill_value=np.nan, dtype=np.complex64)
             h1.mask = np.ones((ny1,nx1), dtype=bool)
-            temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nz)
+            temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nz).reshape(2*nz)
             h1.data.real[jz-1,iz-1] = temp[0:2*nz-1:2]
             h1.data.imag[jz-1,iz-1] = temp[1:2*nz:2]
             h1.mask[jz-1,iz-1] = False
@@ -1371,7 +1371,7 @@ def read_otis_transport(
     v = np.ma.zeros((ny, nx), dtype=np.complex64)
     v.mask = np.zeros((ny, nx), dtype=bool)
     for i in range(ny):
-        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=4*nx)
+        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=4*nx).reshape(4*nx)
         u.data.real[i,:] = temp[0:4*nx-3:4]
         u.data.imag[i,:] = temp[1:4*nx-2:4]
         v.data.real[i,:] = temp[2:4*nx-1:4]
@@ -1437,7 +1437,7 @@ def read_atlas_transport(
     v = np.ma.zeros((ny, nx), dtype=np.complex64)
     v.mask = np.zeros((ny, nx), dtype=bool)
     for i in range(ny):
-        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=4*nx)
+        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=4*nx).reshape(4*nx)
         u.data.real[i,:] = temp[0:4*nx-3:4]
         u.data.imag[i,:] = temp[1:4*nx-2:4]
         v.data.real[i,:] = temp[2:4*nx-1:4]
@@ -1481,7 +1481,7 @@ def read_atlas_transport(
             # real and imaginary components of u transport
             u1 = np.ma.zeros((ny1,nx1), fill_value=np.nan, dtype=np.complex64)
             u1.mask = np.ones((ny1,nx1), dtype=bool)
-            tmpu = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nu)
+            tmpu = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nu).reshape(2*nu)
             u1.data.real[ju-1,iu-1] = tmpu[0:2*nu-1:2]
             u1.data.imag[ju-1,iu-1] = tmpu[1:2*nu:2]
             u1.mask[ju-1,iu-1] = False
@@ -1489,7 +1489,7 @@ def read_atlas_transport(
             # real and imaginary components of v transport
             v1 = np.ma.zeros((ny1,nx1), fill_value=np.nan, dtype=np.complex64)
             v1.mask = np.ones((ny1,nx1), dtype=bool)
-            tmpv = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nv)
+            tmpv = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nv).reshape(2*nv)
             v1.data.real[jv-1,iv-1] = tmpv[0:2*nv-1:2]
             v1.data.imag[jv-1,iv-1] = tmpv[1:2*nv:2]
             v1.mask[jv-1,iv-1] = False
-- 
2.43.0

