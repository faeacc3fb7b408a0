From d01876bfec3110ad7099edc5992978366c46d429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 01/20] fix: use_math() switches where() back to the plain-math
 version

---
 pysolar/numeric.py | 282 ++++++++++++++++++++++-----------------------
 1 file changed, 141 insertions(+), 141 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 112a59e..fa2aa87 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -1,141 +1,141 @@
-
-#    Copyright François Steinmetz
-#
-#    This file is part of Pysolar.
-#
-#    Pysolar is free software; you can redistribute it and/or modify
-#    it under the terms of the GNU General Public License as published by
-#    the Free Software Foundation; either version 3 of the License, or
-#    (at your option) any later version.
-#
-#    Pysolar is distributed in the hope that it will be useful,
-#    but WITHOUT ANY WARRANTY; without even the implied warranty of
-#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#    GNU General Public License for more details.
-#
-#    You should have received a copy of the GNU General Public License along
-#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
-
-
-"""
-Import math functions from either numpy (in order to vectorize operations) or
-builtins math module.
-
-By default, use numpy when available.
-
-To force builtins math module usage when numpy is available:
-    import pysolar
-    pysolar.use_math()
-"""
-
-from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
-
-current_mod = 'math'
-
-
-def globals_import_from(module, name, name_as):
-    """
-    Does "from <module> import <name> as <name_as>" (globally)
-    """
-    module = __import__(module, fromlist=[name])
-    globals()[name_as] = getattr(module, name)
-
-
-def where_math(condition, x, y):
-    """ scalar version of numpy.where """
-    if condition:
-        return x
-    else:
-        return y
-
-where = where_math
-
-
-def tm_yday_math(d):
-    return d.utctimetuple().tm_yday
-
-tm_yday = tm_yday_math
-
-
-def tm_yday_numpy(d):
-    dd = numpy.array(d, dtype='datetime64[D]')
-    dy = numpy.array(d, dtype='datetime64[Y]')
-    return (dd - dy).astype('int') + 1
-
-
-def tm_hour_math(d):
-    return d.utctimetuple().tm_hour
-
-tm_hour = tm_hour_math
-
-
-def tm_hour_numpy(d):
-    dh = numpy.array(d, dtype='datetime64[h]')
-    dd = numpy.array(d, dtype='datetime64[D]')
-    return (dh - dd).astype('int')
-
-
-def tm_min_math(d):
-    return d.utctimetuple().tm_min
-
-tm_min = tm_min_math
-
-
-def tm_min_numpy(d):
-    dm = numpy.array(d, dtype='datetime64[m]')
-    dh = numpy.array(d, dtype='datetime64[h]')
-    return (dm - dh).astype('int')
-
-
-def use_numpy():
-    """
-    Import required functions/constants from numpy
-    """
-    globals_import_from('numpy', 'degrees', 'degrees')
-    globals_import_from('numpy', 'cos', 'cos')
-    globals_import_from('numpy', 'sin', 'sin')
-    globals_import_from('numpy', 'radians', 'radians')
-    globals_import_from('numpy', 'tan', 'tan')
-    globals_import_from('numpy', 'pi', 'pi')
-    globals_import_from('numpy', 'arccos', 'acos')
-    globals_import_from('numpy', 'arctan', 'atan')
-    globals_import_from('numpy', 'arcsin', 'asin')
-    globals_import_from('numpy', 'arctan2', 'atan2')
-    globals_import_from('numpy', 'exp', 'exp')
-    globals_import_from('numpy', 'e', 'e')
-    globals_import_from('numpy', 'where', 'where')
-    globals()['tm_yday'] = tm_yday_numpy
-    globals()['tm_hour'] = tm_hour_numpy
-    globals()['tm_min'] = tm_min_numpy
-    globals()['current_mod'] = 'numpy'
-
-
-def use_math():
-    """
-    Import required functions/constants from builtins math module
-    """
-    globals_import_from('math', 'degrees', 'degrees')
-    globals_import_from('math', 'cos', 'cos')
-    globals_import_from('math', 'sin', 'sin')
-    globals_import_from('math', 'radians', 'radians')
-    globals_import_from('math', 'tan', 'tan')
-    globals_import_from('math', 'pi', 'pi')
-    globals_import_from('math', 'acos', 'acos')
-    globals_import_from('math', 'atan', 'atan')
-    globals_import_from('math', 'asin', 'asin')
-    globals_import_from('math', 'atan2', 'atan2')
-    globals_import_from('math', 'exp', 'exp')
-    globals_import_from('math', 'e', 'e')
-    globals()['where'] = where
-    globals()['tm_yday'] = tm_yday_math
-    globals()['tm_hour'] = tm_hour_math
-    globals()['tm_min'] = tm_min_math
-    globals()['current_mod'] = 'math'
-
-
-try:
-    import numpy
-    use_numpy()
-except ImportError:
-    pass
+
+#    Copyright François Steinmetz
+#
+#    This file is part of Pysolar.
+#
+#    Pysolar is free software; you can redistribute it and/or modify
+#    it under the terms of the GNU General Public License as published by
+#    the Free Software Foundation; either version 3 of the License, or
+#    (at your option) any later version.
+#
+#    Pysolar is distributed in the hope that it will be useful,
+#    but WITHOUT ANY WARRANTY; without even the implied warranty of
+#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#    GNU General Public License for more details.
+#
+#    You should have received a copy of the GNU General Public License along
+#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
+
+
+"""
+Import math functions from either numpy (in order to vectorize operations) or
+builtins math module.
+
+By default, use numpy when available.
+
+To force builtins math module usage when numpy is available:
+    import pysolar
+    pysolar.use_math()
+"""
+
+from math import degrees, cos, sin, radians, tan, pi
+from math import acos, atan, asin, atan2, exp, e
+
+current_mod = 'math'
+
+
+def globals_import_from(module, name, name_as):
+    """
+    Does "from <module> import <name> as <name_as>" (globally)
+    """
+    module = __import__(module, fromlist=[name])
+    globals()[name_as] = getattr(module, name)
+
+
+def where_math(condition, x, y):
+    """ scalar version of numpy.where """
+    if condition:
+        return x
+    else:
+        return y
+
+where = where_math
+
+
+def tm_yday_math(d):
+    return d.utctimetuple().tm_yday
+
+tm_yday = tm_yday_math
+
+
+def tm_yday_numpy(d):
+    dd = numpy.array(d, dtype='datetime64[D]')
+    dy = numpy.array(d, dtype='datetime64[Y]')
+    return (dd - dy).astype('int') + 1
+
+
+def tm_hour_math(d):
+    return d.utctimetuple().tm_hour
+
+tm_hour = tm_hour_math
+
+
+def tm_hour_numpy(d):
+    dh = numpy.array(d, dtype='datetime64[h]')
+    dd = numpy.array(d, dtype='datetime64[D]')
+    return (dh - dd).astype('int')
+
+
+def tm_min_math(d):
+    return d.utctimetuple().tm_min
+
+tm_min = tm_min_math
+
+
+def tm_min_numpy(d):
+    dm = numpy.array(d, dtype='datetime64[m]')
+    dh = numpy.array(d, dtype='datetime64[h]')
+    return (dm - dh).astype('int')
+
+
+def use_numpy():
+    """
+    Import required functions/constants from numpy
+    """
+    globals_import_from('numpy', 'degrees', 'degrees')
+    globals_import_from('numpy', 'cos', 'cos')
+    globals_import_from('numpy', 'sin', 'sin')
+    globals_import_from('numpy', 'radians', 'radians')
+    globals_import_from('numpy', 'tan', 'tan')
+    globals_import_from('numpy', 'pi', 'pi')
+    globals_import_from('numpy', 'arccos', 'acos')
+    globals_import_from('numpy', 'arctan', 'atan')
+    globals_import_from('numpy', 'arcsin', 'asin')
+    globals_import_from('numpy', 'arctan2', 'atan2')
+    globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'e', 'e')
+    globals_import_from('numpy', 'where', 'where')
+    globals()['tm_yday'] = tm_yday_numpy
+    globals()['tm_hour'] = tm_hour_numpy
+    globals()['tm_min'] = tm_min_numpy
+    globals()['current_mod'] = 'numpy'
+
+
+def use_math():
+    """
+    Import required functions/constants from builtins math module
+    """
+    globals_import_from('math', 'degrees', 'degrees')
+    globals_import_from('math', 'cos', 'cos')
+    globals_import_from('math', 'sin', 'sin')
+    globals_import_from('math', 'radians', 'radians')
+    globals_import_from('math', 'tan', 'tan')
+    globals_import_from('math', 'pi', 'pi')
+    globals_import_from('math', 'acos', 'acos')
+    globals_import_from('math', 'atan', 'atan')
+    globals_import_from('math', 'asin', 'asin')
+    globals_import_from('math', 'atan2', 'atan2')
+    globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'e', 'e')
+    globals()['where'] = where_math
+    globals()['tm_yday'] = tm_yday_math
+    globals()['tm_hour'] = tm_hour_math
+    globals()['tm_min'] = tm_min_math
+    globals()['current_mod'] = 'math'
+
+
+try:
+    import numpy
+    use_numpy()
+except ImportError:
+    pass
-- 
2.43.0


From 932b3f06deb39b6deaa16cf6c85cdd2a275bd0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 02/20] fix: get_radiation_direct refuses naive and
 non-datetime times

---
 pysolar/radiation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 8783de0..4b9bc87 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -19,6 +19,7 @@
 
 """
 from . import numeric as math
+from .tzinfo_check import check_aware_dt
 
 def get_air_mass_ratio(altitude_deg):
     # from Masters, p. 412
@@ -40,6 +41,7 @@ def get_optical_depth(day):
     return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * (day - 100)))
 #end get_optical_depth
 
+@check_aware_dt('when')
 def get_radiation_direct(when, altitude_deg):
     # from Masters, p. 412
     is_daytime = (altitude_deg > 0)
-- 
2.43.0


From e108afc2f919c4c12fe6abb4fa8905cdf8dcb1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 03/20] fix: get_radiation_direct no longer overflows or gives
 NaN just below the horizon

---
 pysolar/radiation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 4b9bc87..14140a6 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -49,5 +49,7 @@ def get_radiation_direct(when, altitude_deg):
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
     air_mass_ratio = get_air_mass_ratio(altitude_deg)
-    return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
+    # below the horizon the exponent is positive and can overflow, so do not evaluate it there
+    attenuation = math.exp(math.where(is_daytime, -1 * optical_depth * air_mass_ratio, 0.0))
+    return flux * attenuation * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From ec0ff0265a32450094bcfbfd9cdcc8ae930ba68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 04/20] fix: mean_earth_sun_distance takes the sine of the day
 angle

---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 1b2fdd4..3473843 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -209,7 +209,7 @@ def mean_earth_sun_distance(when):
             radiation models, p.113
     """
 
-    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94)) / 365
+    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)
 
 @check_aware_dt('when')
 def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SC_default):
-- 
2.43.0


From d9fda4a2d9c0754b8943ef32407eaedbdfad37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 05/20] fix: irradiance helpers convert the altitude to radians
 before taking sines

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 3473843..986c8ca 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -317,7 +317,7 @@ def solarelevation_function_clear(latitude_deg, longitude_deg, when, temperature
             and proposed new approaches", energy 30 (2005), pp 1533 - 1549.
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return (0.038175 + (1.5458 * (math.sin(altitude))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude))))))
 
 @check_aware_dt('when')
@@ -361,7 +361,7 @@ def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
         Design of Buildings"
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return ((-0.0067133) + (0.78600 * (math.sin(altitude)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))
 
 
@@ -518,9 +518,9 @@ def direct_underclear(latitude_deg, longitude_deg, when,
     DEC = declination_degree(when,TY)
 
     DIRC = (1367 * KD * math.exp(-0.8662 * (AM) * (TL) * (DEC)
-                             ) * math.sin(solar.get_altitude(latitude_deg,longitude_deg,
+                             ) * math.sin(math.radians(solar.get_altitude(latitude_deg,longitude_deg,
                                                           when,elevation ,
-                                                          temperature , pressure )))
+                                                          temperature , pressure ))))
 
     return DIRC
 
-- 
2.43.0


From 18b9d8348487d40b692ff20271ba8f388c5d2a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 06/20] fix: global_irradiance_clear passes temperature,
 pressure and turbidity on

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 986c8ca..d74a966 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -573,12 +573,12 @@ def global_irradiance_clear(latitude_deg, longitude_deg, when,
 
     """
     DIRC =  direct_underclear(latitude_deg, longitude_deg, when,
-                              TY, AM, TL, elevation, temperature = constants.standard_temperature,
-                              pressure = constants.standard_pressure)
+                              TY, AM, TL, elevation, temperature = temperature,
+                              pressure = pressure)
 
     DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
-                               elevation, temperature = constants.standard_temperature, 
-                               pressure= constants.standard_pressure)
+                               elevation, temperature = temperature,
+                               pressure = pressure, TL = TL)
 
     ghic = (DIRC + DIFFC)
 
-- 
2.43.0


From 0baf81e3c03fa2388171cb98d96672d51c76ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 07/20] fix: cubic term of the mean sidereal time

---
 pysolar/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 663d39b..4890541 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -264,7 +264,7 @@ def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right
 def get_mean_sidereal_time(jd):
     # This function doesn't agree with Andreas and Reda as well as it should. Works to ~5 sig figs in current unit test
     jc = stime.get_julian_century(jd)
-    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc * (1 - jc / 38710000)
+    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc - jc * jc * jc / 38710000
     return sidereal_time % 360
 
 def get_nutation(jce):
-- 
2.43.0


From 098331daee16da4e2f22f1ec0c16abcc22e54112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:56 +0000
Subject: [PATCH 08/20] fix: numeric provides log, which the REST2 model uses

---
 pysolar/numeric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index fa2aa87..ea41a5a 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -29,7 +29,7 @@ To force builtins math module usage when numpy is available:
 """
 
 from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
+from math import acos, atan, asin, atan2, exp, log, e
 
 current_mod = 'math'
 
@@ -103,6 +103,7 @@ def use_numpy():
     globals_import_from('numpy', 'arcsin', 'asin')
     globals_import_from('numpy', 'arctan2', 'atan2')
     globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'log', 'log')
     globals_import_from('numpy', 'e', 'e')
     globals_import_from('numpy', 'where', 'where')
     globals()['tm_yday'] = tm_yday_numpy
@@ -126,6 +127,7 @@ def use_math():
     globals_import_from('math', 'asin', 'asin')
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'log', 'log')
     globals_import_from('math', 'e', 'e')
     globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
-- 
2.43.0


From 638ff0bafbaa92bc9d702933a5bede96112c1521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:58 +0000
Subject: [PATCH 09/20] fix: datetime_range accepts fractional step_minutes

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 0f223b7..5ee6976 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -29,7 +29,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-    for n in range((span.days * constants.seconds_per_day + span.seconds) // step) :
+    for n in range(int((span.days * constants.seconds_per_day + span.seconds) // step)) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From 7f9cf7ebdd3d24c884604dfbdc38892d9622841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 10/20] fix: rounding can no longer push arc-sine and
 arc-cosine arguments past 1

---
 pysolar/numeric.py | 9 +++++++++
 pysolar/solar.py   | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index ea41a5a..08101ad 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -52,6 +52,13 @@ def where_math(condition, x, y):
 where = where_math
 
 
+def clip_math(x, low, high):
+    """ scalar version of numpy.clip """
+    return max(low, min(high, x))
+
+clip = clip_math
+
+
 def tm_yday_math(d):
     return d.utctimetuple().tm_yday
 
@@ -106,6 +113,7 @@ def use_numpy():
     globals_import_from('numpy', 'log', 'log')
     globals_import_from('numpy', 'e', 'e')
     globals_import_from('numpy', 'where', 'where')
+    globals_import_from('numpy', 'clip', 'clip')
     globals()['tm_yday'] = tm_yday_numpy
     globals()['tm_hour'] = tm_hour_numpy
     globals()['tm_min'] = tm_min_numpy
@@ -130,6 +138,7 @@ def use_math():
     globals_import_from('math', 'log', 'log')
     globals_import_from('math', 'e', 'e')
     globals()['where'] = where_math
+    globals()['clip'] = clip_math
     globals()['tm_yday'] = tm_yday_math
     globals()['tm_hour'] = tm_hour_math
     globals()['tm_min'] = tm_min_math
diff --git a/pysolar/solar.py b/pysolar/solar.py
index 4890541..ce325f7 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -139,7 +139,7 @@ def get_altitude_fast(latitude_deg, longitude_deg, when):
     hour_angle = get_hour_angle(when, longitude_deg)
     first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
     second_term = math.sin(latitude_rad) * math.sin(declination_rad)
-    return math.degrees(math.asin(first_term + second_term))
+    return math.degrees(math.asin(math.clip(first_term + second_term, -1, 1)))
 
 
 def get_apparent_sidereal_time(jd, jme, nutation):
@@ -170,7 +170,7 @@ def get_azimuth_fast(latitude_deg, longitude_deg, when):
     hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
     altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
 
-    azimuth_rad = math.asin(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad))
+    azimuth_rad = math.asin(math.clip(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad), -1, 1))
 
     return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),
                       (180 - math.degrees(azimuth_rad)),
@@ -256,7 +256,7 @@ def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topo
     slope_rad = math.radians(slope)
     so_rad = math.radians(slope_orientation)
     taa_rad = math.radians(topocentric_azimuth_angle)
-    return math.degrees(math.acos(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad)))
+    return math.degrees(math.acos(math.clip(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad), -1, 1)))
 
 def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right_ascension):
     return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360
@@ -369,7 +369,7 @@ def get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topoc
     latitude_rad = math.radians(latitude)
     tsd_rad = math.radians(topocentric_sun_declination)
     tlha_rad = math.radians(topocentric_local_hour_angle)
-    return math.degrees(math.asin((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad)))
+    return math.degrees(math.asin(math.clip((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad), -1, 1)))
 
 def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):
     return local_hour_angle - parallax_sun_right_ascension
-- 
2.43.0


From 7cf43748c2db237ad277224215a9cd1075110010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 11/20] fix: no division by zero in the refraction correction
 at -5.11 degrees

---
 pysolar/solar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index ce325f7..77d5eb4 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -336,10 +336,12 @@ def get_refraction_correction(pressure, temperature, topocentric_elevation_angle
     # http://iopscience.iop.org/1538-3881/119/5/2472/pdf/1538-3881_119_5_2472.pdf
 
     a = pressure * 2.830 * 1.02
+    is_visible = tea >= -1.0*(sun_radius + atmos_refract)
+    # the formula has a pole at -5.11 degrees, so do not evaluate it below the cut-off
+    tea = math.where(is_visible, tea, 0.)
     b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))
 
-    del_e = math.where(tea >= -1.0*(sun_radius + atmos_refract),
-                       a / b, 0.)
+    del_e = math.where(is_visible, a / b, 0.)
 
     return del_e
 
-- 
2.43.0


From bed8c7ab004ce4814de01b661c606dac52faa366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 12/20] fix: get_delta_t holds the last value for every month
 after the table

---
 pysolar/solartime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solartime.py b/pysolar/solartime.py
index 14e9f11..fd18f32 100644
--- a/pysolar/solartime.py
+++ b/pysolar/solartime.py
@@ -733,6 +733,7 @@ def get_delta_t(when) :
         month = max(0, month - delta_t_base_month) + 1
     elif year >= delta_t_base_year + len(delta_t) :
         year = delta_t_base_year + len(delta_t) - 1
+        month = 12
     #end if
     if year == delta_t_base_year + len(delta_t) - 1 :
         month = min(month, len(delta_t[year - delta_t_base_year]))
-- 
2.43.0


From 7b3013c17c6c1f33726bcbe7c996187a75847374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 13/20] fix: type stubs match the runtime signatures

---
 pysolar/__init__.pyi  |  7 +++-
 pysolar/constants.pyi | 46 +++++++++++------------
 pysolar/solar.pyi     | 87 ++++++++++++++++++++++---------------------
 pysolar/util.pyi      | 60 ++++++++++++++---------------
 4 files changed, 103 insertions(+), 97 deletions(-)

diff --git a/pysolar/__init__.pyi b/pysolar/__init__.pyi
index 34d207e..e362c5e 100644
--- a/pysolar/__init__.pyi
+++ b/pysolar/__init__.pyi
@@ -1 +1,6 @@
-# Stubs for pysolar (Python 3.6)
+# Stubs for pysolar (Python 3.6)
+
+from . import constants as constants, solartime as stime, radiation as radiation, util as util, solar as solar, numeric as numeric
+
+def use_numpy() -> None: ...
+def use_math() -> None: ...
diff --git a/pysolar/constants.pyi b/pysolar/constants.pyi
index a6b8780..7c430a0 100644
--- a/pysolar/constants.pyi
+++ b/pysolar/constants.pyi
@@ -1,23 +1,23 @@
-# Stubs for pysolar.constants (Python 3.6)
-
-from typing import Dict, List, Tuple
-
-aberration_coeffs: Dict[str,float]
-
-def get_aberration_coeffs() -> Dict[str,float]: ...
-
-earth_radius: float
-earth_axis_inclination: float
-seconds_per_day: int
-standard_pressure: float
-standard_temperature: float
-celsius_offset: float
-earth_temperature_lapse_rate: float
-air_gas_constant: float
-earth_gravity: float
-earth_atmosphere_molar_mass: float
-aberration_sin_terms: List[Tuple[float, float, float, float, float]]
-nutation_coefficients: List[Tuple[float, float, float, float]]
-heliocentric_longitude_coeffs: List[List[Tuple[float, float, float]]]
-heliocentric_latitude_coeffs: List[List[Tuple[float, float, float]]]
-sun_earth_distance_coeffs: List[List[Tuple[float, float, float]]]
+# Stubs for pysolar.constants (Python 3.6)
+
+from typing import Callable, Dict, List, Optional, Tuple
+
+aberration_coeffs: Optional[Dict[str,Callable[[float],float]]]
+
+def get_aberration_coeffs() -> Dict[str,Callable[[float],float]]: ...
+
+earth_radius: float
+earth_axis_inclination: float
+seconds_per_day: int
+standard_pressure: float
+standard_temperature: float
+celsius_offset: float
+earth_temperature_lapse_rate: float
+air_gas_constant: float
+earth_gravity: float
+earth_atmosphere_molar_mass: float
+aberration_sin_terms: List[Tuple[float, float, float, float, float]]
+nutation_coefficients: List[Tuple[float, float, float, float]]
+heliocentric_longitude_coeffs: List[List[Tuple[float, float, float]]]
+heliocentric_latitude_coeffs: List[List[Tuple[float, float, float]]]
+sun_earth_distance_coeffs: List[List[Tuple[float, float, float]]]
diff --git a/pysolar/solar.pyi b/pysolar/solar.pyi
index 93b1b92..b48cc3d 100644
--- a/pysolar/solar.pyi
+++ b/pysolar/solar.pyi
@@ -1,43 +1,44 @@
-# Stubs for pysolar.solar (Python 3.6)
-
-import datetime
-from typing import List, Tuple
-
-def solar_test() -> None: ...
-def equation_of_time(day:int) -> float: ...
-def get_aberration_correction(sun_earth_distance:float) -> float: ...
-def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_apparent_sidereal_time(jd:float, jme:float, nutation_float) -> float: ...
-def get_apparent_sun_longitude(geocentric_longitude:float, nutation:float, ab_correction:float) -> float: ...
-def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
-def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_coeff(jme:float, coeffs:List[List[float]]) -> float: ...
-def get_declination(day:int) -> float: ...
-def get_equatorial_horizontal_parallax(sun_earth_distance:float) -> float: ...
-def get_flattened_latitude(latitude:float) -> float: ...
-def get_geocentric_latitude(jme:float) -> float: ...
-def get_geocentric_longitude(jme:float) -> float: ...
-def get_geocentric_sun_declination(apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
-def get_geocentric_sun_right_ascension(apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
-def get_heliocentric_latitude(jme:float)  -> float: ...
-def get_heliocentric_longitude(jme:float) -> float: ...
-def get_hour_angle(when:datetime.datetime, longitude_deg:float) -> float: ...
-def get_incidence_angle(topocentric_zenith_angle:float, slope:float, slope_orientation:float, topocentric_azimuth_angle:float) -> float: ...
-def get_local_hour_angle(apparent_sidereal_time:float, longitude:float, geocentric_sun_right_ascension:float) -> float: ...
-def get_mean_sidereal_time(jd:float) -> float: ...
-def get_nutation(jce:float) -> float: ...
-def get_parallax_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, geocentric_sun_declination:float) -> float: ...
-def get_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Tuple[float, float]: ...
-def get_projected_radial_distance(elevation:float, latitude:float) -> float: ...
-def get_projected_axial_distance(elevation:float, latitude:float) -> float: ...
-def get_sun_earth_distance(jme:float) -> float: ...
-def get_refraction_correction(pressure:float, temperature:float, topocentric_elevation_angle:float) -> float: ...
-def get_solar_time(longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_topocentric_azimuth_angle(topocentric_local_hour_angle:float, latitude:float, topocentric_sun_declination:float) -> float: ...
-def get_topocentric_elevation_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float) -> float: ...
-def get_topocentric_local_hour_angle(local_hour_angle:float, parallax_sun_right_ascension:float) -> float: ...
-def get_topocentric_sun_declination(geocentric_sun_declination:float, projected_axial_distance:float, equatorial_horizontal_parallax:float, parallax_sun_right_ascension:float, local_hour_angle:float) -> float: ...
-def get_topocentric_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
-def get_topocentric_zenith_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float, pressure:float, temperature:float) -> float: ...
-def get_true_ecliptic_obliquity(jme:float, nutation:float) -> float: ...
+# Stubs for pysolar.solar (Python 3.6)
+
+import datetime
+from typing import Dict, List, Tuple
+
+def solar_test() -> None: ...
+def equation_of_time(day:int) -> float: ...
+def get_aberration_correction(sun_earth_distance:float) -> float: ...
+def get_topocentric_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> Tuple[float, float]: ...
+def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
+def get_apparent_sidereal_time(jd:float, jme:float, nutation:Dict[str,float]) -> float: ...
+def get_apparent_sun_longitude(geocentric_longitude:float, nutation:Dict[str,float], ab_correction:float) -> float: ...
+def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
+def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
+def get_coeff(jme:float, coeffs:List[List[Tuple[float, float, float]]]) -> float: ...
+def get_declination(day:int) -> float: ...
+def get_equatorial_horizontal_parallax(sun_earth_distance:float) -> float: ...
+def get_flattened_latitude(latitude:float) -> float: ...
+def get_geocentric_latitude(jme:float) -> float: ...
+def get_geocentric_longitude(jme:float) -> float: ...
+def get_geocentric_sun_declination(apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
+def get_geocentric_sun_right_ascension(apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
+def get_heliocentric_latitude(jme:float)  -> float: ...
+def get_heliocentric_longitude(jme:float) -> float: ...
+def get_hour_angle(when:datetime.datetime, longitude_deg:float) -> float: ...
+def get_incidence_angle(topocentric_zenith_angle:float, slope:float, slope_orientation:float, topocentric_azimuth_angle:float) -> float: ...
+def get_local_hour_angle(apparent_sidereal_time:float, longitude:float, geocentric_sun_right_ascension:float) -> float: ...
+def get_mean_sidereal_time(jd:float) -> float: ...
+def get_nutation(jce:float) -> Dict[str,float]: ...
+def get_parallax_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, geocentric_sun_declination:float) -> float: ...
+def get_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Tuple[float, float]: ...
+def get_projected_radial_distance(elevation:float, latitude:float) -> float: ...
+def get_projected_axial_distance(elevation:float, latitude:float) -> float: ...
+def get_sun_earth_distance(jme:float) -> float: ...
+def get_refraction_correction(pressure:float, temperature:float, topocentric_elevation_angle:float) -> float: ...
+def get_solar_time(longitude_deg:float, when:datetime.datetime) -> float: ...
+def get_topocentric_azimuth_angle(topocentric_local_hour_angle:float, latitude:float, topocentric_sun_declination:float) -> float: ...
+def get_topocentric_elevation_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float) -> float: ...
+def get_topocentric_local_hour_angle(local_hour_angle:float, parallax_sun_right_ascension:float) -> float: ...
+def get_topocentric_sun_declination(geocentric_sun_declination:float, projected_axial_distance:float, equatorial_horizontal_parallax:float, parallax_sun_right_ascension:float, local_hour_angle:float) -> float: ...
+def get_topocentric_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
+def get_topocentric_zenith_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float, pressure:float, temperature:float) -> float: ...
+def get_true_ecliptic_obliquity(jme:float, nutation:Dict[str,float]) -> float: ...
diff --git a/pysolar/util.pyi b/pysolar/util.pyi
index 5f333ca..eda7f75 100644
--- a/pysolar/util.pyi
+++ b/pysolar/util.pyi
@@ -1,30 +1,30 @@
-# Stubs for pysolar.util (Python 3.6)
-
-import datetime
-import numpy  # https://stackoverflow.com/questions/21968643/what-is-a-scalar-in-numpy  https://stackoverflow.com/questions/40378427/numpy-formal-definition-of-array-like-objects
-from typing import Tuple, Union
-
-AM_default: float
-TL_default: float
-SC_default: float
-TY_default: float
-elevation_default: float
-
-def get_sunrise_sunset_transit(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime, datetime.datetime]: ...
-def get_sunrise_sunset(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime]: ...
-def get_sunrise_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
-def get_sunset_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
-def get_transit_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
-def mean_earth_sun_distance(when:datetime.datetime) -> float: ...
-def extraterrestrial_irrad(when:datetime.datetime, latitude_deg:float, longitude_deg:float, SC:float = ...) -> float: ...
-def declination_degree(when:datetime.datetime, TY:float = ...) -> float: ...
-def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...) -> float: ...
-def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def diffuse_transmittance(TL:float = ...) -> float: ...
-def diffuse_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
-def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
-def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
-def global_irradiance_clear(DIRC, DIFFC, latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
-def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
-def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], when:datetime.datetime, latitude_deg:float, longitude_deg:float) -> float: ...
+# Stubs for pysolar.util (Python 3.6)
+
+import datetime
+import numpy  # https://stackoverflow.com/questions/21968643/what-is-a-scalar-in-numpy  https://stackoverflow.com/questions/40378427/numpy-formal-definition-of-array-like-objects
+from typing import Tuple, Union
+
+AM_default: float
+TL_default: float
+SC_default: float
+TY_default: float
+elevation_default: float
+
+def get_sunrise_sunset_transit(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime, datetime.datetime]: ...
+def get_sunrise_sunset(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime]: ...
+def get_sunrise_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
+def get_sunset_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
+def get_transit_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
+def mean_earth_sun_distance(when:datetime.datetime) -> float: ...
+def extraterrestrial_irrad(latitude_deg:float, longitude_deg:float, when:datetime.datetime, SC:float = ...) -> float: ...
+def declination_degree(when:datetime.datetime, TY:float = ...) -> float: ...
+def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...) -> float: ...
+def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def diffuse_transmittance(TL:float = ...) -> float: ...
+def diffuse_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
+def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
+def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def global_irradiance_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
+def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-- 
2.43.0


From 5bd007acf0d697158cede8f46c09e7b317f2be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 14/20] fix: get_azimuth_fast refuses non-datetime times with
 the same error as the others

---
 pysolar/solar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 77d5eb4..3a7b562 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -162,6 +162,7 @@ def get_azimuth(latitude_deg, longitude_deg, when, elevation = 0):
     return azimuth
 
 
+@check_aware_dt('when')
 def get_azimuth_fast(latitude_deg, longitude_deg, when):
 # expect 230 degrees for solar.get_azimuth(42.364908,-71.112828,datetime.datetime(2007, 2, 18, 20, 18, 0, 0))
     day = math.tm_yday(when)
-- 
2.43.0


From 835e206b27e6d1d5f748216969946da5655104f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 15/20] fix: simulate_span refuses naive and non-datetime start
 and end times

---
 pysolar/simulate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 5ee6976..0aa32dc 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -23,6 +23,7 @@ import datetime
 from . import constants
 from . import radiation
 from . import solar
+from .tzinfo_check import check_aware_dt
 
 def datetime_range(start_datetime, end_datetime, step_minutes):
     '''yields a sequence of datetimes evenly spaced apart by step_minutes.'''
@@ -34,6 +35,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     #end for
 #end datetime_range
 
+@check_aware_dt('start_datetime', 'end_datetime')
 def simulate_span(latitude_deg, longitude_deg, horizon, start_datetime, end_datetime, step_minutes, elevation = 0, temperature = constants.standard_temperature, pressure = constants.standard_pressure):
     '''simulates the motion of the sun over a time span and location of your choosing.
     
-- 
2.43.0


From 3b84fdcdc3dd0a3043d59e38a0c90bc86a01e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 16/20] fix: REST2 optical masses use the zenith angle in
 degrees and the published grouping

---
 pysolar/rest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 7e39181..dbe8680 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -214,25 +214,25 @@ def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
 def get_optical_mass_rayleigh(altitude_deg, pressure_millibars):
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return (pressure_millibars / standard_pressure_millibars) / ((math.cos(Z_rad) + 0.48353 * Z_rad ** 0.095846) / (96.741 - Z_rad) ** 1.754)
+    return (pressure_millibars / standard_pressure_millibars) / (math.cos(Z_rad) + 0.48353 * Z ** 0.095846 / (96.741 - Z) ** 1.754)
 
 
 def get_optical_mass_ozone(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 1.0651 * Z_rad ** 0.6379) / (101.8 - Z_rad) ** 2.2694)
+    return 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)
 
 
 def get_optical_mass_water(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.10648 * Z_rad ** 0.11423) / (93.781 - Z_rad) ** 1.9203)
+    return 1 / (math.cos(Z_rad) + 0.10648 * Z ** 0.11423 / (93.781 - Z) ** 1.9203)
 
 
 def get_optical_mass_aerosol(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.16851 * Z_rad ** 0.18198) / (95.318 - Z_rad) ** 1.9542)
+    return 1 / (math.cos(Z_rad) + 0.16851 * Z ** 0.18198 / (95.318 - Z) ** 1.9542)
 
 
 def get_ozone_transmittance(band, mo, uo):
-- 
2.43.0


From ad86742e94ce99df316b69b3778925a62d63b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 17/20] fix: REST2 applies the pressure correction of the
 Rayleigh air mass once

---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index dbe8680..ecb4d3c 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -135,7 +135,7 @@ def get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars=
     ma = get_optical_mass_aerosol(altitude_deg)
     mo = get_optical_mass_ozone(altitude_deg)
     mR = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)
-    mRprime = mR * pressure_millibars / standard_pressure_millibars
+    mRprime = mR  # already pressure-corrected
     mw = get_optical_mass_water(altitude_deg)
 
     effective_wavelength = get_effective_aerosol_wavelength(
-- 
2.43.0


From 3ff02624e72c96f6d62fc360adafdc71646b1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 18/20] fix: REST2 nitrogen transmittance uses the given amount
 of nitrogen dioxide

---
 pysolar/rest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index ecb4d3c..b0abeb9 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -199,6 +199,7 @@ def get_ground_albedo(band):
 
 
 def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
+    un = nitrogen_atm_cm
     if band == "high-frequency":
         g1 = (0.17499 + 41.654 * un - 2146.4 * un ** 2) / \
             (1 + 22295.0 * un ** 2)
-- 
2.43.0


From 7d8c30fee91357756d2d596ed642828af1267752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:58 +0000
Subject: [PATCH 19/20] fix: datetime_range counts whole steps to the
 microsecond

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 0aa32dc..041c758 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -30,7 +30,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-    for n in range(int((span.days * constants.seconds_per_day + span.seconds) // step)) :
+    for n in range(span // dt) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From 49c9efcbbb95f7d09b3032f63ffda58b63a76052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 20/20] fix: restore the CRLF line endings of numeric.py and
 the stubs lost by earlier fixes

---
 pysolar/__init__.pyi  |  12 +-
 pysolar/constants.pyi |  46 +++----
 pysolar/numeric.py    | 304 +++++++++++++++++++++---------------------
 pysolar/solar.pyi     |  88 ++++++------
 pysolar/util.pyi      |  60 ++++-----
 5 files changed, 255 insertions(+), 255 deletions(-)

diff --git a/pysolar/__init__.pyi b/pysolar/__init__.pyi
index e362c5e..be75068 100644
--- a/pysolar/__init__.pyi
+++ b/pysolar/__init__.pyi
@@ -1,6 +1,6 @@
-# Stubs for pysolar (Python 3.6)
-
-from . import constants as constants, solartime as stime, radiation as radiation, util as util, solar as solar, numeric as numeric
-
-def use_numpy() -> None: ...
-def use_math() -> None: ...
+# Stubs for pysolar (Python 3.6)
+
+from . import constants as constants, solartime as stime, radiation as radiation, util as util, solar as solar, numeric as numeric
+
+def use_numpy() -> None: ...
+def use_math() -> None: ...
diff --git a/pysolar/constants.pyi b/pysolar/constants.pyi
index 7c430a0..a3586ac 100644
--- a/pysolar/constants.pyi
+++ b/pysolar/constants.pyi
@@ -1,23 +1,23 @@
-# Stubs for pysolar.constants (Python 3.6)
-
-from typing import Callable, Dict, List, Optional, Tuple
-
-aberration_coeffs: Optional[Dict[str,Callable[[float],float]]]
-
-def get_aberration_coeffs() -> Dict[str,Callable[[float],float]]: ...
-
-earth_radius: float
-earth_axis_inclination: float
-seconds_per_day: int
-standard_pressure: float
-standard_temperature: float
-celsius_offset: float
-earth_temperature_lapse_rate: float
-air_gas_constant: float
-earth_gravity: float
-earth_atmosphere_molar_mass: float
-aberration_sin_terms: List[Tuple[float, float, float, float, float]]
-nutation_coefficients: List[Tuple[float, float, float, float]]
-heliocentric_longitude_coeffs: List[List[Tuple[float, float, float]]]
-heliocentric_latitude_coeffs: List[List[Tuple[float, float, float]]]
-sun_earth_distance_coeffs: List[List[Tuple[float, float, float]]]
+# Stubs for pysolar.constants (Python 3.6)
+
+from typing import Callable, Dict, List, Optional, Tuple
+
+aberration_coeffs: Optional[Dict[str,Callable[[float],float]]]
+
+def get_aberration_coeffs() -> Dict[str,Callable[[float],float]]: ...
+
+earth_radius: float
+earth_axis_inclination: float
+seconds_per_day: int
+standard_pressure: float
+standard_temperature: float
+celsius_offset: float
+earth_temperature_lapse_rate: float
+air_gas_constant: float
+earth_gravity: float
+earth_atmosphere_molar_mass: float
+aberration_sin_terms: List[Tuple[float, float, float, float, float]]
+nutation_coefficients: List[Tuple[float, float, float, float]]
+heliocentric_longitude_coeffs: List[List[Tuple[float, float, float]]]
+heliocentric_latitude_coeffs: List[List[Tuple[float, float, float]]]
+sun_earth_distance_coeffs: List[List[Tuple[float, float, float]]]
diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 08101ad..cc430f6 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -1,152 +1,152 @@
-
-#    Copyright François Steinmetz
-#
-#    This file is part of Pysolar.
-#
-#    Pysolar is free software; you can redistribute it and/or modify
-#    it under the terms of the GNU General Public License as published by
-#    the Free Software Foundation; either version 3 of the License, or
-#    (at your option) any later version.
-#
-#    Pysolar is distributed in the hope that it will be useful,
-#    but WITHOUT ANY WARRANTY; without even the implied warranty of
-#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#    GNU General Public License for more details.
-#
-#    You should have received a copy of the GNU General Public License along
-#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
-
-
-"""
-Import math functions from either numpy (in order to vectorize operations) or
-builtins math module.
-
-By default, use numpy when available.
-
-To force builtins math module usage when numpy is available:
-    import pysolar
-    pysolar.use_math()
-"""
-
-from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, log, e
-
-current_mod = 'math'
-
-
-def globals_import_from(module, name, name_as):
-    """
-    Does "from <module> import <name> as <name_as>" (globally)
-    """
-    module = __import__(module, fromlist=[name])
-    globals()[name_as] = getattr(module, name)
-
-
-def where_math(condition, x, y):
-    """ scalar version of numpy.where """
-    if condition:
-        return x
-    else:
-        return y
-
-where = where_math
-
-
-def clip_math(x, low, high):
-    """ scalar version of numpy.clip """
-    return max(low, min(high, x))
-
-clip = clip_math
-
-
-def tm_yday_math(d):
-    return d.utctimetuple().tm_yday
-
-tm_yday = tm_yday_math
-
-
-def tm_yday_numpy(d):
-    dd = numpy.array(d, dtype='datetime64[D]')
-    dy = numpy.array(d, dtype='datetime64[Y]')
-    return (dd - dy).astype('int') + 1
-
-
-def tm_hour_math(d):
-    return d.utctimetuple().tm_hour
-
-tm_hour = tm_hour_math
-
-
-def tm_hour_numpy(d):
-    dh = numpy.array(d, dtype='datetime64[h]')
-    dd = numpy.array(d, dtype='datetime64[D]')
-    return (dh - dd).astype('int')
-
-
-def tm_min_math(d):
-    return d.utctimetuple().tm_min
-
-tm_min = tm_min_math
-
-
-def tm_min_numpy(d):
-    dm = numpy.array(d, dtype='datetime64[m]')
-    dh = numpy.array(d, dtype='datetime64[h]')
-    return (dm - dh).astype('int')
-
-
-def use_numpy():
-    """
-    Import required functions/constants from numpy
-    """
-    globals_import_from('numpy', 'degrees', 'degrees')
-    globals_import_from('numpy', 'cos', 'cos')
-    globals_import_from('numpy', 'sin', 'sin')
-    globals_import_from('numpy', 'radians', 'radians')
-    globals_import_from('numpy', 'tan', 'tan')
-    globals_import_from('numpy', 'pi', 'pi')
-    globals_import_from('numpy', 'arccos', 'acos')
-    globals_import_from('numpy', 'arctan', 'atan')
-    globals_import_from('numpy', 'arcsin', 'asin')
-    globals_import_from('numpy', 'arctan2', 'atan2')
-    globals_import_from('numpy', 'exp', 'exp')
-    globals_import_from('numpy', 'log', 'log')
-    globals_import_from('numpy', 'e', 'e')
-    globals_import_from('numpy', 'where', 'where')
-    globals_import_from('numpy', 'clip', 'clip')
-    globals()['tm_yday'] = tm_yday_numpy
-    globals()['tm_hour'] = tm_hour_numpy
-    globals()['tm_min'] = tm_min_numpy
-    globals()['current_mod'] = 'numpy'
-
-
-def use_math():
-    """
-    Import required functions/constants from builtins math module
-    """
-    globals_import_from('math', 'degrees', 'degrees')
-    globals_import_from('math', 'cos', 'cos')
-    globals_import_from('math', 'sin', 'sin')
-    globals_import_from('math', 'radians', 'radians')
-    globals_import_from('math', 'tan', 'tan')
-    globals_import_from('math', 'pi', 'pi')
-    globals_import_from('math', 'acos', 'acos')
-    globals_import_from('math', 'atan', 'atan')
-    globals_import_from('math', 'asin', 'asin')
-    globals_import_from('math', 'atan2', 'atan2')
-    globals_import_from('math', 'exp', 'exp')
-    globals_import_from('math', 'log', 'log')
-    globals_import_from('math', 'e', 'e')
-    globals()['where'] = where_math
-    globals()['clip'] = clip_math
-    globals()['tm_yday'] = tm_yday_math
-    globals()['tm_hour'] = tm_hour_math
-    globals()['tm_min'] = tm_min_math
-    globals()['current_mod'] = 'math'
-
-
-try:
-    import numpy
-    use_numpy()
-except ImportError:
-    pass
+
+#    Copyright François Steinmetz
+#
+#    This file is part of Pysolar.
+#
+#    Pysolar is free software; you can redistribute it and/or modify
+#    it under the terms of the GNU General Public License as published by
+#    the Free Software Foundation; either version 3 of the License, or
+#    (at your option) any later version.
+#
+#    Pysolar is distributed in the hope that it will be useful,
+#    but WITHOUT ANY WARRANTY; without even the implied warranty of
+#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#    GNU General Public License for more details.
+#
+#    You should have received a copy of the GNU General Public License along
+#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
+
+
+"""
+Import math functions from either numpy (in order to vectorize operations) or
+builtins math module.
+
+By default, use numpy when available.
+
+To force builtins math module usage when numpy is available:
+    import pysolar
+    pysolar.use_math()
+"""
+
+from math import degrees, cos, sin, radians, tan, pi
+from math import acos, atan, asin, atan2, exp, log, e
+
+current_mod = 'math'
+
+
+def globals_import_from(module, name, name_as):
+    """
+    Does "from <module> import <name> as <name_as>" (globally)
+    """
+    module = __import__(module, fromlist=[name])
+    globals()[name_as] = getattr(module, name)
+
+
+def where_math(condition, x, y):
+    """ scalar version of numpy.where """
+    if condition:
+        return x
+    else:
+        return y
+
+where = where_math
+
+
+def clip_math(x, low, high):
+    """ scalar version of numpy.clip """
+    return max(low, min(high, x))
+
+clip = clip_math
+
+
+def tm_yday_math(d):
+    return d.utctimetuple().tm_yday
+
+tm_yday = tm_yday_math
+
+
+def tm_yday_numpy(d):
+    dd = numpy.array(d, dtype='datetime64[D]')
+    dy = numpy.array(d, dtype='datetime64[Y]')
+    return (dd - dy).astype('int') + 1
+
+
+def tm_hour_math(d):
+    return d.utctimetuple().tm_hour
+
+tm_hour = tm_hour_math
+
+
+def tm_hour_numpy(d):
+    dh = numpy.array(d, dtype='datetime64[h]')
+    dd = numpy.array(d, dtype='datetime64[D]')
+    return (dh - dd).astype('int')
+
+
+def tm_min_math(d):
+    return d.utctimetuple().tm_min
+
+tm_min = tm_min_math
+
+
+def tm_min_numpy(d):
+    dm = numpy.array(d, dtype='datetime64[m]')
+    dh = numpy.array(d, dtype='datetime64[h]')
+    return (dm - dh).astype('int')
+
+
+def use_numpy():
+    """
+    Import required functions/constants from numpy
+    """
+    globals_import_from('numpy', 'degrees', 'degrees')
+    globals_import_from('numpy', 'cos', 'cos')
+    globals_import_from('numpy', 'sin', 'sin')
+    globals_import_from('numpy', 'radians', 'radians')
+    globals_import_from('numpy', 'tan', 'tan')
+    globals_import_from('numpy', 'pi', 'pi')
+    globals_import_from('numpy', 'arccos', 'acos')
+    globals_import_from('numpy', 'arctan', 'atan')
+    globals_import_from('numpy', 'arcsin', 'asin')
+    globals_import_from('numpy', 'arctan2', 'atan2')
+    globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'log', 'log')
+    globals_import_from('numpy', 'e', 'e')
+    globals_import_from('numpy', 'where', 'where')
+    globals_import_from('numpy', 'clip', 'clip')
+    globals()['tm_yday'] = tm_yday_numpy
+    globals()['tm_hour'] = tm_hour_numpy
+    globals()['tm_min'] = tm_min_numpy
+    globals()['current_mod'] = 'numpy'
+
+
+def use_math():
+    """
+    Import required functions/constants from builtins math module
+    """
+    globals_import_from('math', 'degrees', 'degrees')
+    globals_import_from('math', 'cos', 'cos')
+    globals_import_from('math', 'sin', 'sin')
+    globals_import_from('math', 'radians', 'radians')
+    globals_import_from('math', 'tan', 'tan')
+    globals_import_from('math', 'pi', 'pi')
+    globals_import_from('math', 'acos', 'acos')
+    globals_import_from('math', 'atan', 'atan')
+    globals_import_from('math', 'asin', 'asin')
+    globals_import_from('math', 'atan2', 'atan2')
+    globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'log', 'log')
+    globals_import_from('math', 'e', 'e')
+    globals()['where'] = where_math
+    globals()['clip'] = clip_math
+    globals()['tm_yday'] = tm_yday_math
+    globals()['tm_hour'] = tm_hour_math
+    globals()['tm_min'] = tm_min_math
+    globals()['current_mod'] = 'math'
+
+
+try:
+    import numpy
+    use_numpy()
+except ImportError:
+    pass
diff --git a/pysolar/solar.pyi b/pysolar/solar.pyi
index b48cc3d..13d4355 100644
--- a/pysolar/solar.pyi
+++ b/pysolar/solar.pyi
@@ -1,44 +1,44 @@
-# Stubs for pysolar.solar (Python 3.6)
-
-import datetime
-from typing import Dict, List, Tuple
-
-def solar_test() -> None: ...
-def equation_of_time(day:int) -> float: ...
-def get_aberration_correction(sun_earth_distance:float) -> float: ...
-def get_topocentric_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> Tuple[float, float]: ...
-def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_apparent_sidereal_time(jd:float, jme:float, nutation:Dict[str,float]) -> float: ...
-def get_apparent_sun_longitude(geocentric_longitude:float, nutation:Dict[str,float], ab_correction:float) -> float: ...
-def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
-def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_coeff(jme:float, coeffs:List[List[Tuple[float, float, float]]]) -> float: ...
-def get_declination(day:int) -> float: ...
-def get_equatorial_horizontal_parallax(sun_earth_distance:float) -> float: ...
-def get_flattened_latitude(latitude:float) -> float: ...
-def get_geocentric_latitude(jme:float) -> float: ...
-def get_geocentric_longitude(jme:float) -> float: ...
-def get_geocentric_sun_declination(apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
-def get_geocentric_sun_right_ascension(apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
-def get_heliocentric_latitude(jme:float)  -> float: ...
-def get_heliocentric_longitude(jme:float) -> float: ...
-def get_hour_angle(when:datetime.datetime, longitude_deg:float) -> float: ...
-def get_incidence_angle(topocentric_zenith_angle:float, slope:float, slope_orientation:float, topocentric_azimuth_angle:float) -> float: ...
-def get_local_hour_angle(apparent_sidereal_time:float, longitude:float, geocentric_sun_right_ascension:float) -> float: ...
-def get_mean_sidereal_time(jd:float) -> float: ...
-def get_nutation(jce:float) -> Dict[str,float]: ...
-def get_parallax_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, geocentric_sun_declination:float) -> float: ...
-def get_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Tuple[float, float]: ...
-def get_projected_radial_distance(elevation:float, latitude:float) -> float: ...
-def get_projected_axial_distance(elevation:float, latitude:float) -> float: ...
-def get_sun_earth_distance(jme:float) -> float: ...
-def get_refraction_correction(pressure:float, temperature:float, topocentric_elevation_angle:float) -> float: ...
-def get_solar_time(longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_topocentric_azimuth_angle(topocentric_local_hour_angle:float, latitude:float, topocentric_sun_declination:float) -> float: ...
-def get_topocentric_elevation_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float) -> float: ...
-def get_topocentric_local_hour_angle(local_hour_angle:float, parallax_sun_right_ascension:float) -> float: ...
-def get_topocentric_sun_declination(geocentric_sun_declination:float, projected_axial_distance:float, equatorial_horizontal_parallax:float, parallax_sun_right_ascension:float, local_hour_angle:float) -> float: ...
-def get_topocentric_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
-def get_topocentric_zenith_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float, pressure:float, temperature:float) -> float: ...
-def get_true_ecliptic_obliquity(jme:float, nutation:Dict[str,float]) -> float: ...
+# Stubs for pysolar.solar (Python 3.6)
+
+import datetime
+from typing import Dict, List, Tuple
+
+def solar_test() -> None: ...
+def equation_of_time(day:int) -> float: ...
+def get_aberration_correction(sun_earth_distance:float) -> float: ...
+def get_topocentric_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> Tuple[float, float]: ...
+def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
+def get_apparent_sidereal_time(jd:float, jme:float, nutation:Dict[str,float]) -> float: ...
+def get_apparent_sun_longitude(geocentric_longitude:float, nutation:Dict[str,float], ab_correction:float) -> float: ...
+def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
+def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
+def get_coeff(jme:float, coeffs:List[List[Tuple[float, float, float]]]) -> float: ...
+def get_declination(day:int) -> float: ...
+def get_equatorial_horizontal_parallax(sun_earth_distance:float) -> float: ...
+def get_flattened_latitude(latitude:float) -> float: ...
+def get_geocentric_latitude(jme:float) -> float: ...
+def get_geocentric_longitude(jme:float) -> float: ...
+def get_geocentric_sun_declination(apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
+def get_geocentric_sun_right_ascension(apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
+def get_heliocentric_latitude(jme:float)  -> float: ...
+def get_heliocentric_longitude(jme:float) -> float: ...
+def get_hour_angle(when:datetime.datetime, longitude_deg:float) -> float: ...
+def get_incidence_angle(topocentric_zenith_angle:float, slope:float, slope_orientation:float, topocentric_azimuth_angle:float) -> float: ...
+def get_local_hour_angle(apparent_sidereal_time:float, longitude:float, geocentric_sun_right_ascension:float) -> float: ...
+def get_mean_sidereal_time(jd:float) -> float: ...
+def get_nutation(jce:float) -> Dict[str,float]: ...
+def get_parallax_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, geocentric_sun_declination:float) -> float: ...
+def get_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Tuple[float, float]: ...
+def get_projected_radial_distance(elevation:float, latitude:float) -> float: ...
+def get_projected_axial_distance(elevation:float, latitude:float) -> float: ...
+def get_sun_earth_distance(jme:float) -> float: ...
+def get_refraction_correction(pressure:float, temperature:float, topocentric_elevation_angle:float) -> float: ...
+def get_solar_time(longitude_deg:float, when:datetime.datetime) -> float: ...
+def get_topocentric_azimuth_angle(topocentric_local_hour_angle:float, latitude:float, topocentric_sun_declination:float) -> float: ...
+def get_topocentric_elevation_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float) -> float: ...
+def get_topocentric_local_hour_angle(local_hour_angle:float, parallax_sun_right_ascension:float) -> float: ...
+def get_topocentric_sun_declination(geocentric_sun_declination:float, projected_axial_distance:float, equatorial_horizontal_parallax:float, parallax_sun_right_ascension:float, local_hour_angle:float) -> float: ...
+def get_topocentric_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
+def get_topocentric_zenith_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float, pressure:float, temperature:float) -> float: ...
+def get_true_ecliptic_obliquity(jme:float, nutation:Dict[str,float]) -> float: ...
diff --git a/pysolar/util.pyi b/pysolar/util.pyi
index eda7f75..3b58afa 100644
--- a/pysolar/util.pyi
+++ b/pysolar/util.pyi
@@ -1,30 +1,30 @@
-# Stubs for pysolar.util (Python 3.6)
-
-import datetime
-import numpy  # https://stackoverflow.com/questions/21968643/what-is-a-scalar-in-numpy  https://stackoverflow.com/questions/40378427/numpy-formal-definition-of-array-like-objects
-from typing import Tuple, Union
-
-AM_default: float
-TL_default: float
-SC_default: float
-TY_default: float
-elevation_default: float
-
-def get_sunrise_sunset_transit(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime, datetime.datetime]: ...
-def get_sunrise_sunset(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime]: ...
-def get_sunrise_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
-def get_sunset_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
-def get_transit_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
-def mean_earth_sun_distance(when:datetime.datetime) -> float: ...
-def extraterrestrial_irrad(latitude_deg:float, longitude_deg:float, when:datetime.datetime, SC:float = ...) -> float: ...
-def declination_degree(when:datetime.datetime, TY:float = ...) -> float: ...
-def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...) -> float: ...
-def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def diffuse_transmittance(TL:float = ...) -> float: ...
-def diffuse_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
-def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
-def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def global_irradiance_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
-def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
+# Stubs for pysolar.util (Python 3.6)
+
+import datetime
+import numpy  # https://stackoverflow.com/questions/21968643/what-is-a-scalar-in-numpy  https://stackoverflow.com/questions/40378427/numpy-formal-definition-of-array-like-objects
+from typing import Tuple, Union
+
+AM_default: float
+TL_default: float
+SC_default: float
+TY_default: float
+elevation_default: float
+
+def get_sunrise_sunset_transit(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime, datetime.datetime]: ...
+def get_sunrise_sunset(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Tuple[datetime.datetime, datetime.datetime]: ...
+def get_sunrise_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
+def get_sunset_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
+def get_transit_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
+def mean_earth_sun_distance(when:datetime.datetime) -> float: ...
+def extraterrestrial_irrad(latitude_deg:float, longitude_deg:float, when:datetime.datetime, SC:float = ...) -> float: ...
+def declination_degree(when:datetime.datetime, TY:float = ...) -> float: ...
+def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...) -> float: ...
+def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def diffuse_transmittance(TL:float = ...) -> float: ...
+def diffuse_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
+def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
+def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def global_irradiance_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
+def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-- 
2.43.0

