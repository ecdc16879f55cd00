From 0380391c3e036768c678e4b5f979a6b1b0853b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 01/38] fix: geodetic2eci honours delta_ut1, xp and yp

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 587f0df..138725b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -549,7 +549,7 @@ def geodetic2eci(
 
     x, y, z = geodetic2ecef(lat, lon, alt, ell, deg)
 
-    return ecef2eci(x, y, z, t)
+    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)
 
 
 def enu2ecef(
-- 
2.43.0


From 455d135aabd8dd1c7e1271ca8cbcba76ed9b5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 02/38] fix: enu2aer no longer modifies its array arguments,
 accepts arrays mixed with scalars

---
 src/pymap3d/enu.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index ef78eaa..55d862c 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -51,20 +51,16 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
 
     # 1 millimeter precision for singularity stability
 
-    def _zero_trim_numpy(x, y, z) -> tuple:
-        x[abs(x) < 1e-3] = 0.0
-        y[abs(y) < 1e-3] = 0.0
-        z[abs(z) < 1e-3] = 0.0
-        return x, y, z
-
-    def _zero_trim_scalar(*values: float, threshold: float = 1e-3) -> tuple[float, ...]:
-        """Trim small values (|x| < threshold) to zero."""
-        return tuple(0.0 if abs(v) < threshold else float(v) for v in values)
-
-    try:
-        e, n, u = _zero_trim_numpy(e, n, u)
-    except TypeError:
-        e, n, u = _zero_trim_scalar(float(e), float(n), float(u))
+    def _zero_trim(v):
+        try:
+            # do not modify the caller's array
+            v = v.copy()
+            v[abs(v) < 1e-3] = 0.0
+        except (AttributeError, TypeError):
+            v = 0.0 if abs(v) < 1e-3 else float(v)
+        return v
+
+    e, n, u = _zero_trim(e), _zero_trim(n), _zero_trim(u)
 
     r = hypot(e, n)
     slantRange = hypot(r, u)
-- 
2.43.0


From fb1ea63e08af111b0af48bc08d46602b9e7feb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 03/38] fix: ecef2geodetic keeps the shape of its input for
 every output, accepts arrays mixed with scalars

---
 src/pymap3d/ecef.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 138725b..b1961ac 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import warnings
 
 try:
-    from numpy import empty_like, finfo, where
+    from numpy import broadcast_arrays, empty_like, finfo, shape, where
 except ImportError:
     pass
 
@@ -127,6 +127,12 @@ def ecef2geodetic(
 
     ell = resolve_ellipsoid(ell)
 
+    try:
+        if not shape(x) == shape(y) == shape(z):
+            x, y, z = broadcast_arrays(x, y, z)
+    except NameError:
+        pass
+
     r = sqrt(x**2 + y**2 + z**2)
 
     E = sqrt(ell.semimajor_axis**2 - ell.semiminor_axis**2)
@@ -203,7 +209,7 @@ def ecef2geodetic(
 
         lat, alt = _lat_alt_numpy(x, y, z, Beta)
 
-        lat = lat.squeeze()[()]
+        lat = lat[()]
 
         return lat, alt
 
-- 
2.43.0


From d79e7cf45d60252fcff78331457c5d9ba70cd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 04/38] fix: ecef2geodetic converges away from the ellipsoid
 surface (was off by 16 m at geostationary altitude)

---
 src/pymap3d/ecef.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index b1961ac..2b15aad 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -162,6 +162,24 @@ def ecef2geodetic(
             < 1
         )
 
+    def _refine(Beta, hxy, z):
+        """
+        eqn. 13 is a single Newton step, good near the surface of the ellipsoid only:
+        iterate on the condition that the point lies on the normal at Beta.
+        """
+        # toward the center the normal is not unique: keep the closed form there,
+        # as well as very far away
+        R = hypot(hxy, z)
+        ok = (R > 0.5 * ell.semiminor_axis) & (R < 1000 * ell.semimajor_axis)
+        for _ in range(3):
+            sinB, cosB = sin(Beta), cos(Beta)
+            p = ell.semimajor_axis * hxy
+            q = ell.semiminor_axis * z
+            Beta = Beta - ok * (p * sinB - q * cosB - E**2 * sinB * cosB) / (
+                p * cosB + q * sinB - ok * E**2 * (cosB**2 - sinB**2)
+            )
+        return Beta
+
     def _lat_alt_numpy(x, y, z, Beta) -> tuple:
         """eqation 4c using Numpy"""
         lat = atan(ell.semimajor_axis / ell.semiminor_axis * tan(Beta))
@@ -199,6 +217,7 @@ def ecef2geodetic(
             ell.semimajor_axis * huE[~ibad] * 1 / cos(Beta[~ibad])
             - E**2 * cos(Beta[~ibad])
         )
+        Beta[~ibad] = _refine(Beta[~ibad], hxy[~ibad], z[~ibad])
         iz = ibad & isclose(z, 0)
         i1 = ibad & ~iz & (z > 0)
         i2 = ibad & ~iz & ~i1
@@ -224,6 +243,7 @@ def ecef2geodetic(
                     (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
                     * sin(Beta)
                 ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
+                Beta = _refine(Beta, hxy, z)
         except (ArithmeticError, RuntimeWarning):
             if isclose(z, 0):
                 Beta = 0
-- 
2.43.0


From 87d5796634eff23868b30321f7e3a78070583191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 05/38] fix: polar motion was applied with the wrong sign

---
 src/pymap3d/earth_orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index e649409..2d48d3d 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -282,7 +282,7 @@ def polar_motion_matrix(xp_arcsec: float = 0.0, yp_arcsec: float = 0.0):
 
     xp = xp_arcsec * ARCSEC2RAD
     yp = yp_arcsec * ARCSEC2RAD
-    return matmul3(rotation_y(xp), rotation_x(yp))
+    return matmul3(rotation_x(-yp), rotation_y(-xp))
 
 
 def eci_to_ecef_matrix(
-- 
2.43.0


From 6c7516c27ec2c31143717636e6f1c356e3ae42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 06/38] fix: lookAtSpheroid uses the given ellipsoid throughout

---
 src/pymap3d/los.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index f03abee..7eeeb54 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -76,7 +76,7 @@ def lookAtSpheroid(
     # fixed 1 km slant range
 
     u, v, w = enu2uvw(e, n, u, lat0, lon0, deg=deg)
-    x, y, z = geodetic2ecef(lat0, lon0, h0, deg=deg)
+    x, y, z = geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
 
     value = -(a**2) * b**2 * w * z - a**2 * c**2 * v * y - b**2 * c**2 * u * x
     radical = (
@@ -112,6 +112,6 @@ def lookAtSpheroid(
             d = nan
 
     # %% cartesian to ellipsodal
-    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)
+    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)
 
     return lat, lon, d
-- 
2.43.0


From ba137a54020d9c77d73acb6d1d1d8b6a60eab417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 07/38] fix: eci state transforms of arrays without astropy
 raised ValueError

---
 src/pymap3d/eci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 0eedb0b..a4e089f 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -451,15 +451,15 @@ def _apply_state_rotation(
     vel_out = numpy.empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
-        x, y, z, vx, vy, vz = _apply_state_rotation_scalar(
+        state = _apply_state_rotation_scalar(
             rotation,
             rotation_rate,
             *tuple(pos_in[i, :]),
             *tuple(vel_in[i, :]),
             inverse=inverse,
         )
-        pos_out[i, :] = (x, y, z)
-        vel_out[i, :] = (vx, vy, vz)
+        pos_out[i, :] = state[:3]
+        vel_out[i, :] = state[3:]
 
     return (
         pos_out[:, 0].reshape(x.shape),
-- 
2.43.0


From 6a797bf82ab84f470555c1684b3ae9f94068b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 08/38] fix: eci transforms keep unit-length dimensions of
 arrays

---
 src/pymap3d/eci.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index a4e089f..7e166a0 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -397,9 +397,9 @@ def _apply_rotation(rotation, x, y, z):
     if "numpy" not in sys.modules:
         return matvec3(rotation, (x, y, z))
 
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
+    x = numpy.asarray(x)
+    y = numpy.asarray(y)
+    z = numpy.asarray(z)
     assert x.shape == y.shape == z.shape, (
         f"shape mismatch: x: {x.shape}  y: {y.shape}  z: {z.shape}"
     )
@@ -435,12 +435,12 @@ def _apply_state_rotation(
             rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse
         )
 
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
-    vx = numpy.atleast_1d(vx)
-    vy = numpy.atleast_1d(vy)
-    vz = numpy.atleast_1d(vz)
+    x = numpy.asarray(x)
+    y = numpy.asarray(y)
+    z = numpy.asarray(z)
+    vx = numpy.asarray(vx)
+    vy = numpy.asarray(vy)
+    vz = numpy.asarray(vz)
     assert x.shape == y.shape == z.shape == vx.shape == vy.shape == vz.shape, (
         "shape mismatch between position and velocity inputs"
     )
@@ -505,8 +505,8 @@ def _squeeze_xyz(x, y, z):
     """Preserve scalar inputs while supporting array outputs."""
 
     try:
-        return x.squeeze()[()], y.squeeze()[()], z.squeeze()[()]
-    except AttributeError:
+        return x[()], y[()], z[()]
+    except TypeError:
         return x, y, z
 
 
@@ -515,12 +515,12 @@ def _squeeze_state(x, y, z, vx, vy, vz):
 
     try:
         return (
-            x.squeeze()[()],
-            y.squeeze()[()],
-            z.squeeze()[()],
-            vx.squeeze()[()],
-            vy.squeeze()[()],
-            vz.squeeze()[()],
+            x[()],
+            y[()],
+            z[()],
+            vx[()],
+            vy[()],
+            vz[()],
         )
-    except AttributeError:
+    except TypeError:
         return x, y, z, vx, vy, vz
-- 
2.43.0


From a3f93544d50bccb4f20fba01fcdd7ed3688f9e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 09/38] fix: loxodrome_inverse takes the shorter way across the
 antimeridian, like departure

---
 src/pymap3d/lox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index bcecf54..cd1d51f 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -155,6 +155,8 @@ def loxodrome_inverse(
     # compute changes in isometric latitude and longitude between points
     disolat = geodetic2isometric(lat2, ell, False) - geodetic2isometric(lat1, ell, False)
     dlon = lon2 - lon1
+    # the shorter way around
+    dlon = dlon + tau * ((pi - dlon) // tau)
 
     # compute azimuth
     az12 = atan2(dlon, disolat)
-- 
2.43.0


From b13fc0e312a3c32c877fecd08195d200191ea4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 10/38] fix: loxodrome_inverse azimuth has the same range in
 radians as in degrees

---
 src/pymap3d/lox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index cd1d51f..2cf626f 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -173,8 +173,9 @@ def loxodrome_inverse(
         if i:
             dist = departure(lon2, lon1, lat1, ell, deg=False)
 
+    az12 = az12 % tau
     if deg:
-        az12 = degrees(az12) % 360.0
+        az12 = degrees(az12)
 
     try:
         return dist.squeeze()[()], az12.squeeze()[()]
-- 
2.43.0


From 1df8783081d45a89156dae38289a76764f487606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 11/38] fix: loxodrome functions keep unit-length dimensions of
 arrays

---
 src/pymap3d/lox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 2cf626f..02d1033 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -178,8 +178,8 @@ def loxodrome_inverse(
         az12 = degrees(az12)
 
     try:
-        return dist.squeeze()[()], az12.squeeze()[()]
-    except AttributeError:
+        return dist[()], az12[()]
+    except TypeError:
         return dist, az12
 
 
@@ -266,8 +266,8 @@ def loxodrome_direct(
         lat2, lon2 = degrees(lat2), degrees(lon2)
 
     try:
-        return lat2.squeeze()[()], lon2.squeeze()[()]
-    except AttributeError:
+        return lat2[()], lon2[()]
+    except TypeError:
         return lat2, lon2
 
 
-- 
2.43.0


From 638fe41a417d92d31f04ae63ca5e649b383a428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 12/38] fix: geoc2geod second-order term had the wrong sign (36
 m on Earth)

---
 src/pymap3d/latitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4a56c08..7d88bd5 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -90,7 +90,7 @@ def geoc2geod(
     geodetic_lat = (
         geocentric_lat
         + (sin(2 * geocentric_lat) / r) * ell.flattening
-        + ((1 / r**2 + 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
+        + ((1 / r**2 - 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
     )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
-- 
2.43.0


From 450379a53b341d3d891dcf49446319889086541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 13/38] fix: geocentric2geodetic is the inverse of
 geodetic2geocentric at altitude too

---
 src/pymap3d/latitude.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 7d88bd5..cfb501e 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -175,8 +175,11 @@ def geocentric2geodetic(geocentric_lat: FloatLike, alt_m, ell: Ellipsoid | None
     if deg:
         geocentric_lat = radians(geocentric_lat)
 
-    r = rcurve.transverse(geocentric_lat, ell, deg=False)
-    geodetic_lat = atan(tan(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))))
+    # the radius of curvature is that at the geodetic latitude sought
+    geodetic_lat = geocentric_lat
+    for _ in range(10):
+        r = rcurve.transverse(geodetic_lat, ell, deg=False)
+        geodetic_lat = atan(tan(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))))
 
     return degrees(geodetic_lat) if deg else geodetic_lat
 
-- 
2.43.0


From 3d6300b914579c5871fac94b0b7525b01d922929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 14/38] fix: geodetic2conformal of an array containing +90
 returned one scalar

---
 src/pymap3d/latitude.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index cfb501e..84c272a 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -4,8 +4,6 @@ from __future__ import annotations
 
 from ._typing import FloatArray, FloatLike
 
-import warnings
-
 from math import pi
 
 from . import rcurve
@@ -13,6 +11,7 @@ from .ellipsoid import Ellipsoid, resolve_ellipsoid
 from .mathfun import (
     asinh,
     atan,
+    atan2,
     atanh,
     cos,
     degrees,
@@ -367,13 +366,8 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
     f3 = 1 - sin(geodetic_lat)
     f4 = 1 + sin(geodetic_lat)
 
-    #  compute conformal latitudes with correction for points at +90
-    try:
-        with warnings.catch_warnings(record=True):
-            warnings.simplefilter("error")
-            conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
-    except (ArithmeticError, RuntimeWarning):
-        conformal_lat = pi / 2
+    # atan2 so that points at +90 need no special treatment
+    conformal_lat = 2 * atan2(sqrt(f4 * f1**e), sqrt(f3 * f2**e)) - (pi / 2)
 
     return degrees(conformal_lat) if deg else conformal_lat
 
-- 
2.43.0


From 00a246ebd7113386b9bdfb4cab171895cb15861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 15/38] fix: vdist of arrays treats coincident and
 near-antipodal pairs element by element

---
 src/pymap3d/vincenty.py | 62 ++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d975633..ea9a3a1 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -4,13 +4,11 @@ Vincenty's methods for computing ground distance and reckoning
 
 from __future__ import annotations
 
-import warnings
-
 import logging
 from copy import copy
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import isnan, linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
+from .mathfun import linspace, degrees, minimum, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
 from math import pi, tau, nan
 
 try:
@@ -139,7 +137,8 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         if L > pi:
             L = 2 * pi - L
 
-    lamb = copy(L)  # NOTE: program will fail without copy!
+    lamb = L + 0 * (U1 + U2)  # a copy, of the shape of the result
+    antipodal = False
     itercount = 0
     warninggiven = False
     notdone = True
@@ -149,7 +148,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
             if not warninggiven:
                 logging.warning("Essentially antipodal points--precision may be reduced slightly.")
 
-            lamb = pi
+            antipodal = antipodal | (abs(lamb - lambdaold) > 1e-12)
             break
 
         lambdaold = copy(lamb)
@@ -165,29 +164,11 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
 
         sigma = atan2(sinsigma, cossigma)
 
-        try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
-                sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-
-                alpha = asin(sinAlpha)
-            alpha[isnan(sinAlpha)] = 0
-            alpha[(sinAlpha > 1) | (abs(sinAlpha - 1) < 1e-16)] = pi / 2
-
-        except (ArithmeticError, RuntimeWarning, TypeError, ValueError):
-            try:
-                with warnings.catch_warnings(record=True):
-                    warnings.simplefilter("error")
-                    sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-            except (ArithmeticError, RuntimeWarning):
-                sinAlpha = 0.0
-
-            if isnan(sinAlpha):
-                alpha = 0.0
-            elif sinAlpha > 1 or abs(sinAlpha - 1) < 1e-16:
-                alpha = pi / 2
-            else:
-                alpha = asin(sinAlpha)
+        # sin(sigma) is zero for coincident points, where the azimuth is irrelevant
+        sinsigma = sin(sigma)
+        sinAlpha = cos(U1) * cos(U2) * sin(lamb) / (sinsigma + (sinsigma == 0))
+        # numerical noise may take it beyond 1
+        alpha = asin(minimum(sinAlpha, 1.0))
 
         cos2sigmam = cos(sigma) - 2 * sin(U1) * sin(U2) / cos(alpha) ** 2
 
@@ -198,24 +179,35 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         )
         # print(f'then, lambda(21752) = {lamb[21752],20})
         # correct for convergence failure for essentially antipodal points
+        antipodal = antipodal | (lamb > pi)
         try:
-            i = (lamb > pi).any()
+            i = antipodal.any()
         except AttributeError:
-            i = lamb > pi
+            i = antipodal
 
         if i:
-            logging.warning(
-                "Essentially antipodal points encountered. Precision may be reduced slightly."
-            )
+            if not warninggiven:
+                logging.warning(
+                    "Essentially antipodal points encountered. Precision may be reduced slightly."
+                )
             warninggiven = True
-            lambdaold = pi
-            lamb = pi
+            # these points stay where they are while others still converge
+            try:
+                lamb[antipodal] = lambdaold[antipodal]
+            except TypeError:
+                lamb = lambdaold
 
         try:
             notdone = (abs(lamb - lambdaold) > 1e-12).any()
         except AttributeError:
             notdone = abs(lamb - lambdaold) > 1e-12
 
+    try:
+        lamb[antipodal] = pi
+    except TypeError:
+        if antipodal:
+            lamb = pi
+
     u2 = cos(alpha) ** 2 * (a**2 - b**2) / b**2
     A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
     B = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)))
-- 
2.43.0


From bc28e017d189e7ae27e7284d6137b08d807efd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 16/38] fix: vdist and vreckon no longer modify their array
 arguments

---
 src/pymap3d/vincenty.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index ea9a3a1..b15667c 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -111,6 +111,8 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         if abs(lat1) > pi / 2 or abs(lat2) > pi / 2:
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
     # %% correct for errors at exact poles by adjusting 0.6 millimeters:
+    lat1 = copy(lat1)  # not in the caller's array
+    lat2 = copy(lat2)
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
         lat1[i] = sign(lat1[i]) * (pi / 2 - 1e-10)
@@ -342,6 +344,7 @@ def vreckon(
             raise ValueError("Input lat. must be between -90 and 90 deg., inclusive.")
 
     # correct for errors at exact poles by adjusting 0.6 millimeters:
+    lat1 = copy(lat1)  # not in the caller's array
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
         lat1[i] = sign(lat1[i]) * (pi / 2 - (1e-10))
-- 
2.43.0


From 6bd6ab9a07a0a11c8bbd032b0c4d2b7a8bf4f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 17/38] fix: haversine and anglesep_meeus keep precision down
 to zero separation, as documented

---
 src/pymap3d/haversine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/haversine.py b/src/pymap3d/haversine.py
index 48a5ca6..212f51a 100644
--- a/src/pymap3d/haversine.py
+++ b/src/pymap3d/haversine.py
@@ -18,7 +18,7 @@ try:
 except ImportError:
     pass
 
-from .mathfun import asin, cos, degrees, radians, sqrt
+from .mathfun import asin, cos, degrees, radians, sin, sqrt
 
 __all__ = ["anglesep", "anglesep_meeus", "haversine"]
 
@@ -140,4 +140,4 @@ def haversine(theta: FloatLike):
     https://en.wikipedia.org/wiki/Haversine
     Meeus p. 111
     """
-    return (1 - cos(theta)) / 2.0
+    return sin(theta / 2) ** 2
-- 
2.43.0


From e0965b92953d45e0f825b11265f06f780aab5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 18/38] fix: anglesep_meeus and track2 of almost antipodal
 points no longer fail by rounding

---
 src/pymap3d/haversine.py | 8 ++++----
 src/pymap3d/vincenty.py  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymap3d/haversine.py b/src/pymap3d/haversine.py
index 212f51a..0760998 100644
--- a/src/pymap3d/haversine.py
+++ b/src/pymap3d/haversine.py
@@ -18,7 +18,7 @@ try:
 except ImportError:
     pass
 
-from .mathfun import asin, cos, degrees, radians, sin, sqrt
+from .mathfun import asin, cos, degrees, minimum, radians, sin, sqrt
 
 __all__ = ["anglesep", "anglesep_meeus", "haversine"]
 
@@ -65,9 +65,9 @@ def anglesep_meeus(
         lon1 = radians(lon1)
         lat1 = radians(lat1)
 
-    sep_rad = 2 * asin(
-        sqrt(haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1))
-    )
+    hav = haversine(lat0 - lat1) + cos(lat0) * cos(lat1) * haversine(lon0 - lon1)
+    # rounding may take it beyond 1 for antipodal points
+    sep_rad = 2 * asin(sqrt(minimum(hav, 1.0)))
 
     return degrees(sep_rad) if deg else sep_rad
 
diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index b15667c..61feac7 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -490,9 +490,9 @@ def track2(
         lat2 = radians(lat2)
         lon2 = radians(lon2)
 
-    gcarclen = 2.0 * asin(
-        sqrt((sin((lat1 - lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (sin((lon1 - lon2) / 2)) ** 2)
-    )
+    hav = (sin((lat1 - lat2) / 2)) ** 2 + cos(lat1) * cos(lat2) * (sin((lon1 - lon2) / 2)) ** 2
+    # rounding may take it beyond 1 for antipodal points
+    gcarclen = 2.0 * asin(sqrt(minimum(hav, 1.0)))
     # check to see if points are antipodal (if so, route is undefined).
     if abs(gcarclen - pi) < 1e-12:
         raise ValueError(
-- 
2.43.0


From 6f833bf4f2b723a8545cdfe4b7631f7a1b7ff8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 19/38] fix: nvector2geodetic and nvector_cross_track_distance
 near the poles (NaN or ValueError by rounding, lost precision)

---
 src/pymap3d/nvector.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 800fb05..8fe81b5 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from .mathfun import acos, atan2, cos, degrees, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -66,7 +66,8 @@ def nvector2geodetic(n1: FloatLike, n2: FloatLike, n3: FloatLike, deg: bool = Tr
     """
 
     # Compute latitude and longitude from n-vector
-    lat = asin(n3)
+    # atan2 keeps precision near the poles and tolerates rounding of the unit vector
+    lat = atan2(n3, sqrt(n1 * n1 + n2 * n2))
     lon = atan2(n2, n1)
 
     if deg:
@@ -285,7 +286,11 @@ def nvector_cross_track_distance(
     cx, cy, cz = _norm3(cx, cy, cz)
 
     # Signed angular distance from the great circle
-    return radius * asin(_dot3(cx, cy, cz, np_1, np_2, np_3))
+    # atan2 keeps precision near the pole of the path and tolerates rounding
+    sx, sy, sz = _cross3(cx, cy, cz, np_1, np_2, np_3)
+    return radius * atan2(
+        _dot3(cx, cy, cz, np_1, np_2, np_3), sqrt(sx * sx + sy * sy + sz * sz)
+    )
 
 
 def nvector_intersection(
-- 
2.43.0


From bb3fc3b148c0d45b3d50ac620925826235235bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 20/38] fix: azel2radec and radec2azel fallbacks were singular
 at the poles and zenith (azimuth off by 60 degrees)

---
 src/pymap3d/vallado.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index b397ac0..5eee207 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -12,7 +12,7 @@ from datetime import datetime
 
 from ._typing import FloatLike
 
-from .mathfun import asin, atan2, cos, degrees, radians, sin
+from .mathfun import atan2, cos, degrees, hypot, radians, sin
 from .sidereal import datetime2sidereal
 
 __all__ = ["azel2radec", "radec2azel"]
@@ -65,12 +65,13 @@ def azel2radec(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
     # %% Vallado "algorithm 28" p 268
-    dec = asin(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az))
+    # components of the direction, which have no singularity at poles or zenith
+    x = cos(lat) * sin(el) - sin(lat) * cos(el) * cos(az)
+    y = -sin(az) * cos(el)
 
-    lha = atan2(
-        -(sin(az) * cos(el)) / cos(dec),
-        (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
-    )
+    dec = atan2(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az), hypot(x, y))
+
+    lha = atan2(y, x)
 
     lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
@@ -128,11 +129,12 @@ def radec2azel(
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-    el = asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha))
+    # components of the direction, which have no singularity at poles or zenith
+    x = cos(lat) * sin(dec) - sin(lat) * cos(dec) * cos(lha)
+    y = -sin(lha) * cos(dec)
+
+    el = atan2(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha), hypot(x, y))
     # %% combine Eq. 4-13 and 4-14 p. 268
-    az = atan2(
-        -sin(lha) * cos(dec) / cos(el),
-        (sin(dec) - sin(el) * sin(lat)) / (cos(el) * cos(lat)),
-    )
+    az = atan2(y, x)
 
     return degrees(az) % 360.0, degrees(el)
-- 
2.43.0


From 611e60470ef99d571586ace74a865c7ecf60f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 21/38] fix: azel2radec and radec2azel fallbacks accept an
 array of observer latitudes

---
 src/pymap3d/vallado.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 5eee207..26b3b9d 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -57,7 +57,11 @@ def azel2radec(
     p.258-259
     """
 
-    if abs(lat_deg) > 90:
+    try:
+        bad = (abs(lat_deg) > 90).any()
+    except AttributeError:
+        bad = abs(lat_deg) > 90
+    if bad:
         raise ValueError("-90 <= lat <= 90")
 
     az = radians(az_deg)
@@ -117,7 +121,11 @@ def radec2azel(
     from D. Vallado "Fundamentals of Astrodynamics and Applications "
        4th Edition Ch. 4.4 pg. 266-268
     """
-    if abs(lat_deg) > 90:
+    try:
+        bad = (abs(lat_deg) > 90).any()
+    except AttributeError:
+        bad = abs(lat_deg) > 90
+    if bad:
         raise ValueError("-90 <= lat <= 90")
 
     ra = radians(ra_deg)
-- 
2.43.0


From d628ce79b26c4c5c3f94d5baec66a1fbea1b9548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 22/38] fix: str2dt accepts lists of strings as documented, and
 datetime64 of any unit

---
 src/pymap3d/timeconv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/timeconv.py b/src/pymap3d/timeconv.py
index 4f5e710..93734da 100644
--- a/src/pymap3d/timeconv.py
+++ b/src/pymap3d/timeconv.py
@@ -28,5 +28,8 @@ def str2dt(time: DatetimeLike):
         return time
     elif isinstance(time, str):
         return datetime.fromisoformat(time)
+    elif isinstance(time, (tuple, list)):
+        return [str2dt(t) for t in time]
     else:
-        return time.astype(datetime)
+        # microseconds, otherwise nanoseconds become int and days become date
+        return time.astype("datetime64[us]").astype(datetime)
-- 
2.43.0


From b17aadfe72955da136748049ab00f06472c2d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 23/38] fix: geodesics through the poles were off by up to 0.2
 m (pole offset was 1.5e-8 instead of the square root of the smallest float)

---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index dfe7e71..fa141d7 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -23,7 +23,7 @@ from .mathfun import copysign, fmod, hypot, isnan, sqrt
 __all__ = ["geodesic_direct", "geodesic_inverse", "geodesic_line", "geodesic_area"]
 
 # --- Constants ---
-_tiny = sqrt(2.220446049250313e-16)
+_tiny = sqrt(2.2250738585072014e-308)
 _tol0 = 2.220446049250313e-16
 _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
-- 
2.43.0


From d5d44521c5e33d0d17baa96bd7eb27cf72a323ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 24/38] fix: geodesic_inverse of close points near the equator
 (azimuth and distance lost precision, 0.7 m in 3.7 km)

---
 src/pymap3d/karney.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index fa141d7..bd7bb19 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -522,7 +522,7 @@ class _Geodesic:
         salp2 = salp0 / cbet2 if cbet2 != cbet1 else salp1
         calp2 = (
             sqrt((calp1 * cbet1) ** 2 +
-                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet2 != cbet1
+                 ((cbet2 - cbet1) * (cbet1 + cbet2) if cbet1 < -sbet1
                   else (sbet1 - sbet2) * (sbet1 + sbet2))) / cbet2
             if cbet2 != cbet1 or abs(sbet2) != -sbet1
             else abs(calp1))
@@ -602,6 +602,8 @@ class _Geodesic:
         if cbet1 < -sbet1:
             if cbet2 == cbet1:
                 sbet2 = sbet1 if sbet2 < 0 else -sbet1
+        elif abs(sbet2) == -sbet1:
+            cbet2 = cbet1
 
         dn1 = sqrt(1.0 + self._ep2 * sbet1 ** 2)
         dn2 = sqrt(1.0 + self._ep2 * sbet2 ** 2)
-- 
2.43.0


From 86e9ddca529e8c1650c27d13b860f5eafb5f6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 25/38] fix: geodesic_inverse converges for nearly antipodal
 points on almost meridional geodesics

---
 src/pymap3d/karney.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index bd7bb19..f2eca3a 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -29,7 +29,7 @@ _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
 _xthresh = 1000 * _tol2
 _maxit1 = 20
-_maxit2 = _maxit1 + 10 + 1
+_maxit2 = _maxit1 + 53 + 10  # enough for bisection to full precision
 
 _nC1 = 6
 _nC1p = 6
@@ -482,12 +482,12 @@ class _Geodesic:
                 lamscale = betscale / cbet1
                 y = (lam12 - math.pi) / lamscale
 
-            if y < -_tol1 and x > -1.0 - _xthresh:
+            if y > -_tol1 and x > -1.0 - _xthresh:
                 if self.f >= 0:
                     salp1 = min(1.0, -x)
                     calp1 = -sqrt(1.0 - salp1 ** 2)
                 else:
-                    calp1 = max(-1.0 if x > -_tol1 else -1.0, x)
+                    calp1 = max(0.0 if x > -_tol1 else -1.0, x)
                     salp1 = sqrt(1.0 - calp1 ** 2)
             else:
                 k = _Astroid(x, y)
@@ -694,7 +694,7 @@ class _Geodesic:
                         salp1a = salp1
                         calp1a = calp1
 
-                    if numit < _maxit1 and dlam12 != 0:
+                    if numit < _maxit1 and dlam12 > 0:
                         dalp1 = -v / dlam12
                         sdalp1 = math.sin(dalp1)
                         cdalp1 = math.cos(dalp1)
-- 
2.43.0


From 922b30d24f1430b3bb6fedd990491c6711db4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 26/38] fix: geodesic_area returned about half the ellipsoid
 for every polygon, and mixed units in radians

---
 src/pymap3d/karney.py | 82 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index f2eca3a..20d3a8b 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -720,6 +720,10 @@ class _Geodesic:
                 s12x *= self._b
                 a12 = math.degrees(sig12)
 
+        # area between the geodesic and the equator
+        S12 = self._Area12(sbet1, cbet1, sbet2, cbet2, salp1, calp1, salp2, calp2, meridian)
+        S12 *= swapp * lonsign * latsign
+
         if swapp < 0:
             salp1, salp2 = salp2, salp1
             calp1, calp2 = calp2, calp1
@@ -732,7 +736,46 @@ class _Geodesic:
 
         azi1 = _atan2d(salp1, calp1)
         azi2 = _atan2d(salp2, calp2)
-        return s12x, azi1, azi2
+        return s12x, azi1, azi2, S12
+
+    def _Area12(self, sbet1, cbet1, sbet2, cbet2, salp1, calp1, salp2, calp2, meridian):
+        salp0 = salp1 * cbet1
+        calp0 = hypot(calp1, salp1 * sbet1)
+
+        S12 = 0.0
+        comg12 = 2.0
+        somg12 = 0.0
+        if calp0 != 0 and salp0 != 0:
+            ssig1, csig1 = _norm2(sbet1, calp1 * cbet1)
+            ssig2, csig2 = _norm2(sbet2, calp2 * cbet2)
+            k2 = calp0 ** 2 * self._ep2
+            eps = k2 / (2.0 * (1.0 + sqrt(1.0 + k2)) + k2)
+            C4a = [0.0] * _nC4
+            self._C4f(eps, C4a)
+            C4a.insert(0, 0.0)  # the series starts at index 1
+            B41 = _SinCosSeries(False, ssig1, csig1, C4a, _nC4)
+            B42 = _SinCosSeries(False, ssig2, csig2, C4a, _nC4)
+            S12 = self.a ** 2 * calp0 * salp0 * self._e2 * (B42 - B41)
+
+            # spherical longitude difference
+            somg1, comg1 = _norm2(salp0 * ssig1, csig1)
+            somg2, comg2 = _norm2(salp0 * ssig2, csig2)
+            somg12 = comg1 * somg2 - somg1 * comg2
+            comg12 = comg1 * comg2 + somg1 * somg2
+
+        if not meridian and -0.7071 < comg12 <= 1 and sbet2 - sbet1 < 1.75:
+            # tan(alp12/2) from the spherical triangle, precise for short lines
+            alp12 = 2.0 * math.atan2(
+                somg12 * (sbet1 * (1.0 + cbet2) + sbet2 * (1.0 + cbet1)),
+                (1.0 + comg12) * (sbet1 * sbet2 + (1.0 + cbet1) * (1.0 + cbet2)))
+        else:
+            salp12 = salp2 * calp1 - calp2 * salp1
+            calp12 = calp2 * calp1 + salp2 * salp1
+            if salp12 == 0 and calp12 < 0:
+                salp12 = _tiny * calp1
+                calp12 = -1.0
+            alp12 = math.atan2(salp12, calp12)
+        return S12 + self._c2 * alp12
 
     def _Direct(self, lat1, lon1, azi1, s12):
         salp1, calp1 = _sincosd(_AngNormalize(azi1))
@@ -875,7 +918,7 @@ def geodesic_inverse(
     if not deg:
         lat1, lon1 = math.degrees(lat1), math.degrees(lon1)
         lat2, lon2 = math.degrees(lat2), math.degrees(lon2)
-    dist, azi1, azi2 = g._Inverse(lat1, lon1, lat2, lon2)
+    dist, azi1, azi2, _ = g._Inverse(lat1, lon1, lat2, lon2)
     if not deg:
         azi1, azi2 = math.radians(azi1), math.radians(azi2)
     return dist, azi1, azi2
@@ -970,7 +1013,8 @@ def geodesic_area(
     Compute the area and perimeter of a geodesic polygon.
     Polygon must have at least 3 vertices.
 
-    Counterclockwise vertex ordering gives positive area.
+    The area is positive for vertices that are clockwise as seen from above,
+    that is counterclockwise in a plot with latitude on the x-axis.
 
     Parameters
     ----------
@@ -986,7 +1030,7 @@ def geodesic_area(
     Returns
     -------
     area : float
-        Area in square meters (signed: CCW = positive).
+        Area in square meters (signed, see above).
     perimeter : float
         Perimeter in meters.
     """
@@ -997,27 +1041,23 @@ def geodesic_area(
 
     g = _get_geodesic(ell)
     perimeter = 0.0
-    area_sum = 0.0
-    azi2_prev = None
-    azi1_first = None
+    area = 0.0
+    lon_sum = 0.0
 
     for i in range(n):
         j = (i + 1) % n
-        dist_ij, azi1_ij, azi2_ij = geodesic_inverse(
-            lats[i], lons[i], lats[j], lons[j], ell=ell, deg=deg)
+        lat1, lon1, lat2, lon2 = lats[i], lons[i], lats[j], lons[j]
+        if not deg:
+            lat1, lon1 = math.degrees(lat1), math.degrees(lon1)
+            lat2, lon2 = math.degrees(lat2), math.degrees(lon2)
+        dist_ij, _, _, S12 = g._Inverse(lat1, lon1, lat2, lon2)
         perimeter += dist_ij
-        if i == 0:
-            azi1_first = azi1_ij
-        else:
-            diff, _ = _AngDiff(azi2_prev, azi1_ij)
-            area_sum += diff
-        azi2_prev = azi2_ij
-
-    diff, _ = _AngDiff(azi2_prev, azi1_first)
-    area_sum += diff
+        area += S12
+        lon_sum += sum(_AngDiff(lon1, lon2))
 
-    area = g._c2 * math.radians(area_sum)
     area0 = 4.0 * math.pi * g._c2
-    if abs(area) > area0 / 2:
-        area -= copysign(area0, area)
+    area = math.remainder(area, area0)
+    if round(lon_sum / 360.0) % 2:
+        # the polygon encircles a pole
+        area += -copysign(area0 / 2, area)
     return area, perimeter
-- 
2.43.0


From 0429eb6921f2b681b3eb19a92992fdf1fee5f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 27/38] fix: CLI options whose default is None were passed as
 the text None (nvector_distance failed)

---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 8a1c083..21e6c44 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -103,7 +103,7 @@ def _add_parameter_arg(parser: argparse.ArgumentParser, param: inspect.Parameter
         parser.add_argument(
             f"--{name.replace('_', '-')}",
             dest=dest,
-            default=str(default),
+            default=default,
             help=f"{name} (default: {default})",
         )
     else:
-- 
2.43.0


From 2fbe2cc4f9a6cc2ae51357827488a36e0eb2bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 28/38] fix: CLI prints numbers of matrices and arrays plainly
 (NumPy reprs, JSON failed, precision ignored)

---
 src/pymap3d/__main__.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 21e6c44..8575617 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -167,12 +167,29 @@ def _call_selected_function(
 
 
 def _format_scalar(value: Any, precision: int | None) -> str:
+    match value:
+        case tuple():
+            return "(" + ", ".join(_format_scalar(v, precision) for v in value) + ")"
+        case list():
+            return "[" + ", ".join(_format_scalar(v, precision) for v in value) + "]"
+
     if precision is not None and isinstance(value, float):
         return f"{value:.{precision}f}"
 
     return str(value)
 
 
+def _to_plain(value: Any) -> Any:
+    """Convert NumPy arrays and scalars, also inside tuples and lists, into Python values."""
+    match value:
+        case tuple():
+            return tuple(_to_plain(v) for v in value)
+        case list():
+            return [_to_plain(v) for v in value]
+
+    return value.tolist() if hasattr(value, "tolist") else value
+
+
 def _to_jsonable(value: Any) -> Any:
     """Convert results into JSON-serializable structures."""
     match value:
@@ -188,6 +205,8 @@ def _to_jsonable(value: Any) -> Any:
 
 def _emit_result(result: Any, output_mode: str, precision: int | None) -> None:
     """Render results according to output mode."""
+    result = _to_plain(result)
+
     if output_mode == "json":
         print(json.dumps(_to_jsonable(result)))
         return
-- 
2.43.0


From 22b1bca35201644c03150dd5def8a6a6dd82d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 29/38] fix: geodetic2spherical and spherical2geodetic lost
 precision near the poles (6e-7 degree, 7 cm)

---
 src/pymap3d/spherical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index fde9166..3f5b2d6 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -9,7 +9,7 @@ from __future__ import annotations
 from ._typing import FloatLike
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import asin, atan2, cube_root, degrees, hypot, power, radians, sin, sqrt
+from .mathfun import atan2, cos, cube_root, degrees, hypot, power, radians, sin, sqrt
 
 __all__ = [
     "geodetic2spherical",
@@ -69,7 +69,7 @@ def geodetic2spherical(
 
     # Pre-compute to avoid repeated trigonometric functions
     sinlat = sin(lat)
-    coslat = sqrt(1 - sinlat**2)
+    coslat = cos(lat)
 
     # radius of curvature of the prime vertical section
     N = ell.semimajor_axis**2 / hypot(
@@ -82,7 +82,7 @@ def geodetic2spherical(
     xy_projection = (alt + N) * coslat
     z_cartesian = (alt + (1 - ell.eccentricity**2) * N) * sinlat
     radius = hypot(xy_projection, z_cartesian)
-    slat = asin(z_cartesian / radius)
+    slat = atan2(z_cartesian, xy_projection)
 
     if deg:
         slat = degrees(slat)
@@ -138,7 +138,7 @@ def spherical2geodetic(
 
     # Pre-compute to avoid repeated trigonometric functions
     sinlat = sin(lat)
-    coslat = sqrt(1 - sinlat**2)
+    coslat = cos(lat)
 
     Z = radius * sinlat
     p_0 = power(radius, 2) * coslat**2 / ell.semimajor_axis**2
-- 
2.43.0


From 8af8868e8e8bb0c48d7d5376855206cbdc2151d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 30/38] fix: azel2radec and radec2azel with force_non_astropy
 used Astropy's sidereal time and ignored delta_ut1

---
 src/pymap3d/vallado.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 26b3b9d..556f7a3 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -77,7 +77,7 @@ def azel2radec(
 
     lha = atan2(y, x)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
     """ by definition right ascension [0, 360) degrees """
     return degrees(lst - lha) % 360, degrees(dec)
@@ -133,7 +133,7 @@ def radec2azel(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # RADIANS
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-- 
2.43.0


From fa5ee0deb2967fd0dc368a0670b515c26efd0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 31/38] fix: Ellipsoid.from_name returned an outdated ellipsoid
 after its registry entry was changed

---
 src/pymap3d/ellipsoid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/ellipsoid.py b/src/pymap3d/ellipsoid.py
index 3a1f6a1..db04994 100644
--- a/src/pymap3d/ellipsoid.py
+++ b/src/pymap3d/ellipsoid.py
@@ -194,7 +194,8 @@ class Ellipsoid:
         """Create an Ellipsoid from a name."""
 
         if cls is Ellipsoid:
-            return _from_name_cached(name)
+            model = cls.models[name]
+            return _from_name_cached(name, model["name"], model["a"], model["b"])
 
         return cls(
             cls.models[name]["a"],
@@ -205,9 +206,8 @@ class Ellipsoid:
 
 
 @lru_cache(maxsize=None)
-def _from_name_cached(name: str) -> Ellipsoid:
-    model = Ellipsoid.models[name]
-    return Ellipsoid(model["a"], model["b"], name=model["name"], model=name)
+def _from_name_cached(model: str, name: str, a: float, b: float) -> Ellipsoid:
+    return Ellipsoid(a, b, name=name, model=model)
 
 
 def resolve_ellipsoid(ell: Ellipsoid | None) -> Ellipsoid:
-- 
2.43.0


From 5c92fed4663222996fd4febf210444e99a1d6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 32/38] fix: vdist in radians failed when one latitude was a
 number and the other an array

---
 src/pymap3d/vincenty.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 61feac7..3008a47 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -104,11 +104,12 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         lat2 = radians(lat2)
         lon2 = radians(lon2)
 
-    try:
-        if (abs(lat1) > pi / 2).any() | (abs(lat2) > pi / 2).any():
-            raise ValueError("Input latitudes must be in [-90, 90] degrees.")
-    except AttributeError:
-        if abs(lat1) > pi / 2 or abs(lat2) > pi / 2:
+    for lat in (lat1, lat2):  # one may be an array and the other a number
+        try:
+            beyond = (abs(lat) > pi / 2).any()
+        except AttributeError:
+            beyond = abs(lat) > pi / 2
+        if beyond:
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
     # %% correct for errors at exact poles by adjusting 0.6 millimeters:
     lat1 = copy(lat1)  # not in the caller's array
-- 
2.43.0


From 139253a2a632bb61630fcb62c1404b3a57c7e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 33/38] fix: azel2radec and radec2azel raised TypeError for
 invalid latitudes when Astropy is installed

---
 src/pymap3d/azelradec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/azelradec.py b/src/pymap3d/azelradec.py
index 09d4ca2..8cd25a9 100644
--- a/src/pymap3d/azelradec.py
+++ b/src/pymap3d/azelradec.py
@@ -71,7 +71,7 @@ def azel2radec_astropy(
     """azel2radec using Astropy
     see azel2radec() for description
     """
-    obs = EarthLocation(lat=lat_deg * u.deg, lon=lon_deg * u.deg)
+    obs = EarthLocation.from_geodetic(lon_deg * u.deg, lat_deg * u.deg)
 
     direc = AltAz(
         location=obs, obstime=Time(time), az=az_deg * u.deg, alt=el_deg * u.deg
@@ -138,7 +138,7 @@ def radec2azel_astropy(
     see radec2azel() for description
     """
 
-    obs = EarthLocation(lat=lat_deg * u.deg, lon=lon_deg * u.deg)
+    obs = EarthLocation.from_geodetic(lon_deg * u.deg, lat_deg * u.deg)
 
     points = SkyCoord(
         Angle(ra_deg, unit=u.deg), Angle(dec_deg, unit=u.deg), equinox="J2000.0"
-- 
2.43.0


From eb2686dfd1407248505710f455d80265a439168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 34/38] fix: authalic radius keeps its digits on nearly
 spherical ellipsoids

---
 src/pymap3d/rsphere.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/rsphere.py b/src/pymap3d/rsphere.py
index 925e668..776cb6b 100644
--- a/src/pymap3d/rsphere.py
+++ b/src/pymap3d/rsphere.py
@@ -6,7 +6,7 @@ from . import rcurve
 
 from ._typing import FloatLike
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import cos, degrees, log, radians, sin, sqrt
+from .mathfun import atanh, cos, degrees, radians, sin, sqrt
 from .vincenty import vdist
 
 __all__ = [
@@ -61,8 +61,8 @@ def authalic(ell: Ellipsoid | None = None) -> float:
 
     if e > 0:
         f1 = ell.semimajor_axis**2 / 2
-        f2 = (1 - e**2) / (2 * e)
-        f3 = log((1 + e) / (1 - e))
+        f2 = (1 - e**2) / e
+        f3 = atanh(e)
         return sqrt(f1 * (1 + f2 * f3))
     else:
         return ell.semimajor_axis
-- 
2.43.0


From 6458cc398a83a3dec44a8852f1a8cc9fd27475d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 35/38] fix: conformal latitude keeps its digits next to the
 poles

---
 src/pymap3d/latitude.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 84c272a..16e0d32 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -363,8 +363,9 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
     e = ell.eccentricity
     f1 = 1 - e * sin(geodetic_lat)
     f2 = 1 + e * sin(geodetic_lat)
-    f3 = 1 - sin(geodetic_lat)
-    f4 = 1 + sin(geodetic_lat)
+    # 1 -/+ sin(latitude), without cancellation next to the poles
+    f3 = 2 * sin(pi / 4 - geodetic_lat / 2) ** 2
+    f4 = 2 * sin(pi / 4 + geodetic_lat / 2) ** 2
 
     # atan2 so that points at +90 need no special treatment
     conformal_lat = 2 * atan2(sqrt(f4 * f1**e), sqrt(f3 * f2**e)) - (pi / 2)
-- 
2.43.0


From c4d474d5aa24301008875206789901d1e229a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 36/38] fix: nearly east-west rhumb lines no longer amplify the
 series' truncation

---
 src/pymap3d/lox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 02d1033..57ef1ad 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -248,7 +248,8 @@ def loxodrome_direct(
     # transform to geodetic latitude
 
     newiso = geodetic2isometric(lat2, ell, False)
-    iso = geodetic2isometric(lat1, ell, False)
+    # through the same series as the new point, so that their truncation cancels
+    iso = geodetic2isometric(rectifying2geodetic(reclat, ell, False), ell, False)
 
     # stability near singularities
     i = abs(cos(a12)) < COS_EPS
-- 
2.43.0


From 952833f87c76e9199fac583d75c0b3e917cdabc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 37/38] fix: nvector_interpolate keeps its digits between
 nearly antipodal points

---
 src/pymap3d/nvector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 8fe81b5..4918e0b 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -11,7 +11,7 @@ The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
 from __future__ import annotations
 
 from ._typing import FloatLike
-from .mathfun import acos, atan2, cos, degrees, radians, sin, sqrt
+from .mathfun import atan2, cos, degrees, radians, sin, sqrt
 from .ecef import geodetic2ecef, ecef2geodetic
 from .ellipsoid import Ellipsoid
 
@@ -206,10 +206,10 @@ def nvector_interpolate(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3, fraction: float) ->
         Components of interpolated n-vector.
     """
     dot = _dot3(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3)
-    # clamp to [-1, 1] for safety
-    dot = max(-1.0, min(1.0, dot))
+    cx, cy, cz = _cross3(n1_1, n1_2, n1_3, n2_1, n2_2, n2_3)
 
-    omega = acos(dot)
+    # atan2 keeps precision between nearly antipodal points
+    omega = atan2(sqrt(cx * cx + cy * cy + cz * cz), dot)
 
     # For very small angles, fall back to normalized linear interpolation
     if abs(omega) < 1e-10:
-- 
2.43.0


From 7453b9bb6aa1f4f0a290f04d61bd1edc10bd8812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 38/38] fix: geocentric coordinates in 32-bit integer arrays
 overflowed

---
 src/pymap3d/ecef.py      | 15 ++++++++-------
 src/pymap3d/spherical.py |  5 +++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 2b15aad..b8e6873 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -133,7 +133,8 @@ def ecef2geodetic(
     except NameError:
         pass
 
-    r = sqrt(x**2 + y**2 + z**2)
+    # does not overflow the square of an integer array
+    r = hypot(hypot(x, y), z)
 
     E = sqrt(ell.semimajor_axis**2 - ell.semiminor_axis**2)
 
@@ -147,18 +148,18 @@ def ecef2geodetic(
     def _inside_numpy(x, y, z):
         # inside ellipsoid?
         return (
-            x**2 / ell.semimajor_axis**2
-            + y**2 / ell.semimajor_axis**2
-            + z**2 / ell.semiminor_axis**2
+            (x / ell.semimajor_axis) ** 2
+            + (y / ell.semimajor_axis) ** 2
+            + (z / ell.semiminor_axis) ** 2
             < 1
         )
 
     def _inside_scalar(x: float, y: float, z: float) -> bool:
         # inside ellipsoid?
         return (
-            x**2 / ell.semimajor_axis**2
-            + y**2 / ell.semimajor_axis**2
-            + z**2 / ell.semiminor_axis**2
+            (x / ell.semimajor_axis) ** 2
+            + (y / ell.semimajor_axis) ** 2
+            + (z / ell.semiminor_axis) ** 2
             < 1
         )
 
diff --git a/src/pymap3d/spherical.py b/src/pymap3d/spherical.py
index 3f5b2d6..f57238d 100644
--- a/src/pymap3d/spherical.py
+++ b/src/pymap3d/spherical.py
@@ -9,7 +9,7 @@ from __future__ import annotations
 from ._typing import FloatLike
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import atan2, cos, cube_root, degrees, hypot, power, radians, sin, sqrt
+from .mathfun import atan2, cos, cube_root, degrees, hypot, radians, sin, sqrt
 
 __all__ = [
     "geodetic2spherical",
@@ -141,7 +141,8 @@ def spherical2geodetic(
     coslat = cos(lat)
 
     Z = radius * sinlat
-    p_0 = power(radius, 2) * coslat**2 / ell.semimajor_axis**2
+    # does not overflow the square of an integer array
+    p_0 = (radius * coslat / ell.semimajor_axis) ** 2
     q_0 = (1 - ell.eccentricity**2) / ell.semimajor_axis**2 * Z**2
     r_0 = (p_0 + q_0 - ell.eccentricity**4) / 6
     s_0 = ell.eccentricity**4 * p_0 * q_0 / 4 / r_0**3
-- 
2.43.0

