From ca518fdcafe4b50883982a247792d54e26451c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:32 +0000
Subject: [PATCH 01/32] fix: use_math() restores the scalar 'where' instead of
 keeping numpy's

---
 pysolar/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 112a59e..badd73b 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -127,7 +127,7 @@ def use_math():
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
     globals_import_from('math', 'e', 'e')
-    globals()['where'] = where
+    globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
     globals()['tm_hour'] = tm_hour_math
     globals()['tm_min'] = tm_min_math
-- 
2.43.0


From d8eb271d42c427cf05805d8896af6b3251a7a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:35 +0000
Subject: [PATCH 02/32] fix: provide log in pysolar.numeric, which the REST2
 model calls

---
 pysolar/numeric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index badd73b..2af79bb 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -29,7 +29,7 @@ To force builtins math module usage when numpy is available:
 """
 
 from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
+from math import acos, atan, asin, atan2, exp, e, log
 
 current_mod = 'math'
 
@@ -104,6 +104,7 @@ def use_numpy():
     globals_import_from('numpy', 'arctan2', 'atan2')
     globals_import_from('numpy', 'exp', 'exp')
     globals_import_from('numpy', 'e', 'e')
+    globals_import_from('numpy', 'log', 'log')
     globals_import_from('numpy', 'where', 'where')
     globals()['tm_yday'] = tm_yday_numpy
     globals()['tm_hour'] = tm_hour_numpy
@@ -127,6 +128,7 @@ def use_math():
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
     globals_import_from('math', 'e', 'e')
+    globals_import_from('math', 'log', 'log')
     globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
     globals()['tm_hour'] = tm_hour_math
-- 
2.43.0


From c3a536526fec35e16860afb4c05f63fdc3937312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 03/32] fix: get_radiation_direct returns 0 just below the
 horizon, not nan or OverflowError

---
 pysolar/radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 8783de0..9a18702 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -46,6 +46,7 @@ def get_radiation_direct(when, altitude_deg):
     day = math.tm_yday(when)
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
-    air_mass_ratio = get_air_mass_ratio(altitude_deg)
+    # at night the air mass ratio is negative and the exponential may overflow
+    air_mass_ratio = get_air_mass_ratio(math.where(altitude_deg < 0, 90.0, altitude_deg))
     return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From b2a6966371c49c134c9bcb46241133eb07aa11e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 04/32] fix: get_radiation_direct rejects naive datetimes like
 the rest of the API

---
 pysolar/radiation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 9a18702..32cba2e 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -19,6 +19,7 @@
 
 """
 from . import numeric as math
+from .tzinfo_check import check_aware_dt
 
 def get_air_mass_ratio(altitude_deg):
     # from Masters, p. 412
@@ -40,6 +41,7 @@ def get_optical_depth(day):
     return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * (day - 100)))
 #end get_optical_depth
 
+@check_aware_dt('when')
 def get_radiation_direct(when, altitude_deg):
     # from Masters, p. 412
     is_daytime = (altitude_deg > 0)
-- 
2.43.0


From 0ae77a751b82458ed730ccdd7617268b15ab29d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:42 +0000
Subject: [PATCH 05/32] fix: get_delta_t holds the last table entry after the
 table ends

---
 pysolar/solartime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solartime.py b/pysolar/solartime.py
index 14e9f11..6c16144 100644
--- a/pysolar/solartime.py
+++ b/pysolar/solartime.py
@@ -733,6 +733,7 @@ def get_delta_t(when) :
         month = max(0, month - delta_t_base_month) + 1
     elif year >= delta_t_base_year + len(delta_t) :
         year = delta_t_base_year + len(delta_t) - 1
+        month = 12 # later than all of the table
     #end if
     if year == delta_t_base_year + len(delta_t) - 1 :
         month = min(month, len(delta_t[year - delta_t_base_year]))
-- 
2.43.0


From dc936fa31a5e64b5bf9c5d660326a53fd85a38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 06/32] fix: datetime_range accepts a fractional number of
 minutes

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 0f223b7..3bf00fc 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -29,7 +29,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-    for n in range((span.days * constants.seconds_per_day + span.seconds) // step) :
+    for n in range(span // dt) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From bc1cff415eacfd88fec8c74ed12b3e0a72f2da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:46 +0000
Subject: [PATCH 07/32] fix: simulate_span looks up azimuths of 359.5 degrees
 and more at index 0 of the horizon

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 3bf00fc..5c3426f 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -48,7 +48,7 @@ def simulate_span(latitude_deg, longitude_deg, horizon, start_datetime, end_date
     for time in datetime_range(start_datetime, end_datetime, step_minutes) :
         alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
         azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
-        shade = horizon[round(azi)]
+        shade = horizon[round(azi) % 360]
         if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :
             rad = 0
         else :
-- 
2.43.0


From 9e219c9416640e175531858dfc6a099dd0913ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:48 +0000
Subject: [PATCH 08/32] fix: mean_earth_sun_distance varies over the year
 (misplaced parenthesis)

---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 1b2fdd4..3473843 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -209,7 +209,7 @@ def mean_earth_sun_distance(when):
             radiation models, p.113
     """
 
-    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94)) / 365
+    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)
 
 @check_aware_dt('when')
 def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SC_default):
-- 
2.43.0


From 7afea540517c43c7a75dbca1036e128efeebc958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:50 +0000
Subject: [PATCH 09/32] fix: check_aware_dt leaves an omitted argument to the
 function instead of raising KeyError

---
 pysolar/tzinfo_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 2518672..6e39067 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -81,6 +81,8 @@ def check_aware_dt(*argnames):
           try:
             dt = args[full.args.index(argname)]
           except (IndexError, ValueError):
+            if argname not in kwargs:
+              continue  # not given: left to func, as without the check
             dt = kwargs[argname]
           # checking if dt is timezone-aware
           if not hasattr(dt, 'shape'):   # don't raise Exception if dt is an array (assumed of datetime64)
-- 
2.43.0


From 32c34dc6e12cfd92ec1506b3a339b247d1556e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 10/32] fix: get_refraction_correction returns 0 at an
 elevation angle of -5.11 degrees

---
 pysolar/solar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 663d39b..d05293a 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -335,11 +335,14 @@ def get_refraction_correction(pressure, temperature, topocentric_elevation_angle
     # Better method could come from Auer and Standish [2000]:
     # http://iopscience.iop.org/1538-3881/119/5/2472/pdf/1538-3881_119_5_2472.pdf
 
+    # and singular at -5.11 degrees, so don't evaluate it there
+    is_visible = tea >= -1.0*(sun_radius + atmos_refract)
+    tea = math.where(is_visible, tea, 0.)
+
     a = pressure * 2.830 * 1.02
     b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))
 
-    del_e = math.where(tea >= -1.0*(sun_radius + atmos_refract),
-                       a / b, 0.)
+    del_e = math.where(is_visible, a / b, 0.)
 
     return del_e
 
-- 
2.43.0


From cd454e93a6f74c8802bcf84d0296ba2edce28f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:55 +0000
Subject: [PATCH 11/32] fix: cubic term of the mean sidereal time

---
 pysolar/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index d05293a..fd668de 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -264,7 +264,7 @@ def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right
 def get_mean_sidereal_time(jd):
     # This function doesn't agree with Andreas and Reda as well as it should. Works to ~5 sig figs in current unit test
     jc = stime.get_julian_century(jd)
-    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc * (1 - jc / 38710000)
+    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + jc * jc * (0.000387933 - jc / 38710000)
     return sidereal_time % 360
 
 def get_nutation(jce):
-- 
2.43.0


From b2b214fb99e8f8b6797aa0d87d2407bda3e461da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:58 +0000
Subject: [PATCH 12/32] fix: rounding no longer pushes asin/acos arguments out
 of their domain

---
 pysolar/numeric.py | 5 +++++
 pysolar/solar.py   | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 2af79bb..6bb2f37 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -52,6 +52,11 @@ def where_math(condition, x, y):
 where = where_math
 
 
+def clip_unit(x):
+    """ limit a computed sine or cosine, which rounding can take past +-1, to [-1, 1] """
+    return where(x > 1, 1.0, where(x < -1, -1.0, x))
+
+
 def tm_yday_math(d):
     return d.utctimetuple().tm_yday
 
diff --git a/pysolar/solar.py b/pysolar/solar.py
index fd668de..44b864a 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -139,7 +139,7 @@ def get_altitude_fast(latitude_deg, longitude_deg, when):
     hour_angle = get_hour_angle(when, longitude_deg)
     first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
     second_term = math.sin(latitude_rad) * math.sin(declination_rad)
-    return math.degrees(math.asin(first_term + second_term))
+    return math.degrees(math.asin(math.clip_unit(first_term + second_term)))
 
 
 def get_apparent_sidereal_time(jd, jme, nutation):
@@ -170,7 +170,7 @@ def get_azimuth_fast(latitude_deg, longitude_deg, when):
     hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
     altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
 
-    azimuth_rad = math.asin(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad))
+    azimuth_rad = math.asin(math.clip_unit(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad)))
 
     return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),
                       (180 - math.degrees(azimuth_rad)),
@@ -256,7 +256,7 @@ def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topo
     slope_rad = math.radians(slope)
     so_rad = math.radians(slope_orientation)
     taa_rad = math.radians(topocentric_azimuth_angle)
-    return math.degrees(math.acos(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad)))
+    return math.degrees(math.acos(math.clip_unit(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad))))
 
 def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right_ascension):
     return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360
@@ -372,7 +372,7 @@ def get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topoc
     latitude_rad = math.radians(latitude)
     tsd_rad = math.radians(topocentric_sun_declination)
     tlha_rad = math.radians(topocentric_local_hour_angle)
-    return math.degrees(math.asin((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad)))
+    return math.degrees(math.asin(math.clip_unit((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad))))
 
 def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):
     return local_hour_angle - parallax_sun_right_ascension
-- 
2.43.0


From feb5217a4d1cb237a7ecc122358c3607fc744fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 13/32] fix: sunrise, sunset and transit are right on days when
 the UTC offset changes

---
 pysolar/util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 3473843..82331be 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -29,7 +29,8 @@
 """
 from datetime import \
     datetime, \
-    timedelta
+    timedelta, \
+    timezone
 from . import numeric as math
 from . import solar, constants
 from .tzinfo_check import check_aware_dt
@@ -156,10 +157,11 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         *
             (12 / math.pi)
         )
-    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = when.tzinfo)
-    sunrise_time = same_day + timedelta(hours = TON - ha)
-    sunset_time = same_day + timedelta(hours = TON + ha)
-    transit_time = same_day + timedelta(hours = TON)
+    # TON is reckoned at the fixed UTC offset of "when", which may change during the day
+    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))
+    sunrise_time = (same_day + timedelta(hours = TON - ha)).astimezone(when.tzinfo)
+    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)
+    transit_time = (same_day + timedelta(hours = TON)).astimezone(when.tzinfo)
     return sunrise_time, sunset_time, transit_time
 
 @check_aware_dt('when')
-- 
2.43.0


From ca8c34116eee328d491adb63569b57dc56422847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:03 +0000
Subject: [PATCH 14/32] fix: solar elevation functions and direct_underclear
 take the sine of the altitude in degrees as such

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 82331be..4807532 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -319,7 +319,7 @@ def solarelevation_function_clear(latitude_deg, longitude_deg, when, temperature
             and proposed new approaches", energy 30 (2005), pp 1533 - 1549.
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return (0.038175 + (1.5458 * (math.sin(altitude))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude))))))
 
 @check_aware_dt('when')
@@ -363,7 +363,7 @@ def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
         Design of Buildings"
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return ((-0.0067133) + (0.78600 * (math.sin(altitude)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))
 
 
@@ -520,9 +520,9 @@ def direct_underclear(latitude_deg, longitude_deg, when,
     DEC = declination_degree(when,TY)
 
     DIRC = (1367 * KD * math.exp(-0.8662 * (AM) * (TL) * (DEC)
-                             ) * math.sin(solar.get_altitude(latitude_deg,longitude_deg,
+                             ) * math.sin(math.radians(solar.get_altitude(latitude_deg,longitude_deg,
                                                           when,elevation ,
-                                                          temperature , pressure )))
+                                                          temperature , pressure ))))
 
     return DIRC
 
-- 
2.43.0


From 84fb4e8749bfe0308b15a61ca36f507be02b7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:06 +0000
Subject: [PATCH 15/32] fix: global_irradiance_clear honours its temperature,
 pressure and TL arguments

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 4807532..905e18c 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -575,12 +575,12 @@ def global_irradiance_clear(latitude_deg, longitude_deg, when,
 
     """
     DIRC =  direct_underclear(latitude_deg, longitude_deg, when,
-                              TY, AM, TL, elevation, temperature = constants.standard_temperature,
-                              pressure = constants.standard_pressure)
+                              TY, AM, TL, elevation, temperature = temperature,
+                              pressure = pressure)
 
     DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
-                               elevation, temperature = constants.standard_temperature, 
-                               pressure= constants.standard_pressure)
+                               elevation, temperature = temperature,
+                               pressure = pressure, TL = TL)
 
     ghic = (DIRC + DIFFC)
 
-- 
2.43.0


From 3cc0b0951a20141b56927b497efef48d6ad1499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:08 +0000
Subject: [PATCH 16/32] fix: REST2 optical masses (degrees, and the quotient
 belongs to the second term only)

---
 pysolar/rest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 7e39181..dbe8680 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -214,25 +214,25 @@ def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
 def get_optical_mass_rayleigh(altitude_deg, pressure_millibars):
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return (pressure_millibars / standard_pressure_millibars) / ((math.cos(Z_rad) + 0.48353 * Z_rad ** 0.095846) / (96.741 - Z_rad) ** 1.754)
+    return (pressure_millibars / standard_pressure_millibars) / (math.cos(Z_rad) + 0.48353 * Z ** 0.095846 / (96.741 - Z) ** 1.754)
 
 
 def get_optical_mass_ozone(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 1.0651 * Z_rad ** 0.6379) / (101.8 - Z_rad) ** 2.2694)
+    return 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)
 
 
 def get_optical_mass_water(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.10648 * Z_rad ** 0.11423) / (93.781 - Z_rad) ** 1.9203)
+    return 1 / (math.cos(Z_rad) + 0.10648 * Z ** 0.11423 / (93.781 - Z) ** 1.9203)
 
 
 def get_optical_mass_aerosol(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.16851 * Z_rad ** 0.18198) / (95.318 - Z_rad) ** 1.9542)
+    return 1 / (math.cos(Z_rad) + 0.16851 * Z ** 0.18198 / (95.318 - Z) ** 1.9542)
 
 
 def get_ozone_transmittance(band, mo, uo):
-- 
2.43.0


From c741e9f20191ddc60336824469d96ec4432f4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:16 +0000
Subject: [PATCH 17/32] fix: numpy backend honours the seconds of UTC offsets

---
 pysolar/numeric.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 6bb2f37..6971bf3 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -28,6 +28,7 @@ To force builtins math module usage when numpy is available:
     pysolar.use_math()
 """
 
+from datetime import timezone
 from math import degrees, cos, sin, radians, tan, pi
 from math import acos, atan, asin, atan2, exp, e, log
 
@@ -63,7 +64,15 @@ def tm_yday_math(d):
 tm_yday = tm_yday_math
 
 
+def to_utc(d):
+    """ aware datetime to naive UTC, as numpy itself ignores the seconds of UTC offsets """
+    if getattr(d, 'tzinfo', None) is not None:
+        d = d.astimezone(timezone.utc).replace(tzinfo=None)
+    return d
+
+
 def tm_yday_numpy(d):
+    d = to_utc(d)
     dd = numpy.array(d, dtype='datetime64[D]')
     dy = numpy.array(d, dtype='datetime64[Y]')
     return (dd - dy).astype('int') + 1
@@ -76,6 +85,7 @@ tm_hour = tm_hour_math
 
 
 def tm_hour_numpy(d):
+    d = to_utc(d)
     dh = numpy.array(d, dtype='datetime64[h]')
     dd = numpy.array(d, dtype='datetime64[D]')
     return (dh - dd).astype('int')
@@ -88,6 +98,7 @@ tm_min = tm_min_math
 
 
 def tm_min_numpy(d):
+    d = to_utc(d)
     dm = numpy.array(d, dtype='datetime64[m]')
     dh = numpy.array(d, dtype='datetime64[h]')
     return (dm - dh).astype('int')
-- 
2.43.0


From d1bb710d9a7f64810fee94b95d75144b7cf44a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:19 +0000
Subject: [PATCH 18/32] fix: get_azimuth_fast checks its datetime first, like
 the other position functions

---
 pysolar/solar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 44b864a..91962bc 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -162,6 +162,7 @@ def get_azimuth(latitude_deg, longitude_deg, when, elevation = 0):
     return azimuth
 
 
+@check_aware_dt('when')
 def get_azimuth_fast(latitude_deg, longitude_deg, when):
 # expect 230 degrees for solar.get_azimuth(42.364908,-71.112828,datetime.datetime(2007, 2, 18, 20, 18, 0, 0))
     day = math.tm_yday(when)
-- 
2.43.0


From 12c1cc1f620ab019bbc1bfaf945165defc7b8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 19/32] fix: REST2 applies the pressure correction of the
 Rayleigh optical mass once

---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index dbe8680..8881580 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -135,7 +135,7 @@ def get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars=
     ma = get_optical_mass_aerosol(altitude_deg)
     mo = get_optical_mass_ozone(altitude_deg)
     mR = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)
-    mRprime = mR * pressure_millibars / standard_pressure_millibars
+    mRprime = mR  # already corrected for pressure
     mw = get_optical_mass_water(altitude_deg)
 
     effective_wavelength = get_effective_aerosol_wavelength(
-- 
2.43.0


From 8f46db76111a7e48b22cb920802aec7c79e2cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:34 +0000
Subject: [PATCH 20/32] fix: type stubs list the parameters that the functions
 take

---
 pysolar/solar.pyi | 10 +++++-----
 pysolar/util.pyi  |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pysolar/solar.pyi b/pysolar/solar.pyi
index 93b1b92..c9bf20f 100644
--- a/pysolar/solar.pyi
+++ b/pysolar/solar.pyi
@@ -1,15 +1,15 @@
 # Stubs for pysolar.solar (Python 3.6)
 
 import datetime
-from typing import List, Tuple
+from typing import Dict, List, Tuple
 
 def solar_test() -> None: ...
 def equation_of_time(day:int) -> float: ...
 def get_aberration_correction(sun_earth_distance:float) -> float: ...
 def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_apparent_sidereal_time(jd:float, jme:float, nutation_float) -> float: ...
-def get_apparent_sun_longitude(geocentric_longitude:float, nutation:float, ab_correction:float) -> float: ...
+def get_apparent_sidereal_time(jd:float, jme:float, nutation:Dict[str,float]) -> float: ...
+def get_apparent_sun_longitude(geocentric_longitude:float, nutation:Dict[str,float], ab_correction:float) -> float: ...
 def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
 def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
 def get_coeff(jme:float, coeffs:List[List[float]]) -> float: ...
@@ -26,7 +26,7 @@ def get_hour_angle(when:datetime.datetime, longitude_deg:float) -> float: ...
 def get_incidence_angle(topocentric_zenith_angle:float, slope:float, slope_orientation:float, topocentric_azimuth_angle:float) -> float: ...
 def get_local_hour_angle(apparent_sidereal_time:float, longitude:float, geocentric_sun_right_ascension:float) -> float: ...
 def get_mean_sidereal_time(jd:float) -> float: ...
-def get_nutation(jce:float) -> float: ...
+def get_nutation(jce:float) -> Dict[str,float]: ...
 def get_parallax_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, geocentric_sun_declination:float) -> float: ...
 def get_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Tuple[float, float]: ...
 def get_projected_radial_distance(elevation:float, latitude:float) -> float: ...
@@ -40,4 +40,4 @@ def get_topocentric_local_hour_angle(local_hour_angle:float, parallax_sun_right_
 def get_topocentric_sun_declination(geocentric_sun_declination:float, projected_axial_distance:float, equatorial_horizontal_parallax:float, parallax_sun_right_ascension:float, local_hour_angle:float) -> float: ...
 def get_topocentric_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
 def get_topocentric_zenith_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float, pressure:float, temperature:float) -> float: ...
-def get_true_ecliptic_obliquity(jme:float, nutation:float) -> float: ...
+def get_true_ecliptic_obliquity(jme:float, nutation:Dict[str,float]) -> float: ...
diff --git a/pysolar/util.pyi b/pysolar/util.pyi
index 5f333ca..3b58afa 100644
--- a/pysolar/util.pyi
+++ b/pysolar/util.pyi
@@ -16,15 +16,15 @@ def get_sunrise_time(latitude_deg:float, longitude_deg:float, when:datetime.date
 def get_sunset_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
 def get_transit_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
 def mean_earth_sun_distance(when:datetime.datetime) -> float: ...
-def extraterrestrial_irrad(when:datetime.datetime, latitude_deg:float, longitude_deg:float, SC:float = ...) -> float: ...
+def extraterrestrial_irrad(latitude_deg:float, longitude_deg:float, when:datetime.datetime, SC:float = ...) -> float: ...
 def declination_degree(when:datetime.datetime, TY:float = ...) -> float: ...
 def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...) -> float: ...
 def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def diffuse_transmittance(TL:float = ...) -> float: ...
 def diffuse_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
 def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
-def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
-def global_irradiance_clear(DIRC, DIFFC, latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
+def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def global_irradiance_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
-def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], when:datetime.datetime, latitude_deg:float, longitude_deg:float) -> float: ...
+def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-- 
2.43.0


From 738206172372809a7bf60bfb5af9a4ff3a8ba290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:55 +0000
Subject: [PATCH 21/32] fix: get_radiation_direct returns 0 at an altitude of
 -0.0, not nan

---
 pysolar/radiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 32cba2e..41ed48a 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -49,6 +49,6 @@ def get_radiation_direct(when, altitude_deg):
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
     # at night the air mass ratio is negative and the exponential may overflow
-    air_mass_ratio = get_air_mass_ratio(math.where(altitude_deg < 0, 90.0, altitude_deg))
+    air_mass_ratio = get_air_mass_ratio(math.where(is_daytime, altitude_deg, 90.0))
     return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From b9251baf0830d2fb09ddb8e9aa137c6c0c07195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:15 +0000
Subject: [PATCH 22/32] fix: REST2 nitrogen dioxide transmittance uses the
 amount it is given

---
 pysolar/rest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 8881580..a61a69d 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -200,6 +200,7 @@ def get_ground_albedo(band):
 
 def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
     if band == "high-frequency":
+        un = nitrogen_atm_cm  # just renaming to keep equations short
         g1 = (0.17499 + 41.654 * un - 2146.4 * un ** 2) / \
             (1 + 22295.0 * un ** 2)
         g2 = un * (-1.2134 + 59.324 * un) / (1 + 8847.8 * un ** 2)
-- 
2.43.0


From 21284d0ac22514e3e130b82fe4c3663575f7d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 23/32] fix: the time-zone check looks through wrapped
 functions instead of silently passing everything

---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 6e39067..9c4236b 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -74,7 +74,7 @@ def check_aware_dt(*argnames):
         we just checked the values of args from argnames before"""
       for argname in argnames:
         # first checking if argname is a valid arg name
-        full = inspect.getfullargspec(func)
+        full = inspect.getfullargspec(inspect.unwrap(func))
         if (argname in full.args or
             argname in full.kwonlyargs):
           # getting value given for argname
-- 
2.43.0


From 8154223ccdb6d1e6bc8e3401ad93dd2c4e1cf5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 24/32] fix: NoTimeZoneInfoError can be copied and pickled, so
 process pools can report it

---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 9c4236b..f486f86 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -7,7 +7,7 @@ class NoTimeZoneInfoError(ValueError):
   def __init__(self, argname, dt, *args):
     self.argname = argname
     self.dt = dt
-    super().__init__(*args)
+    super().__init__(argname, dt, *args)  # in args, so that copying and pickling work
 
   def __str__(self):
     return """datetime value '{dt}' given for arg '{argname}' \
-- 
2.43.0


From e5d6017dd04571351756739f110e257ab679ce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:25 +0000
Subject: [PATCH 25/32] fix: datetime_range steps evenly through daylight
 saving changes

---
 pysolar/simulate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 5c3426f..b329b1b 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -26,6 +26,13 @@ from . import solar
 
 def datetime_range(start_datetime, end_datetime, step_minutes):
     '''yields a sequence of datetimes evenly spaced apart by step_minutes.'''
+    if isinstance(start_datetime, datetime.datetime) and start_datetime.dst() is not None and end_datetime.tzinfo is not None:
+        # Arithmetic within a zone that keeps daylight saving time follows the
+        # clocks of that zone, which are not even: step in UTC.
+        utc = datetime.timezone.utc
+        for time in datetime_range(start_datetime.astimezone(utc), end_datetime.astimezone(utc), step_minutes):
+            yield time.astimezone(start_datetime.tzinfo)
+        return
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-- 
2.43.0


From 325176b8c264b967c6fb167373582c5f287a4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:52 +0000
Subject: [PATCH 26/32] fix: sunrise, sunset and transit for zones that do not
 tell daylight saving time

---
 pysolar/util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 905e18c..78d418c 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -159,9 +159,14 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         )
     # TON is reckoned at the fixed UTC offset of "when", which may change during the day
     same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))
-    sunrise_time = (same_day + timedelta(hours = TON - ha)).astimezone(when.tzinfo)
-    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)
-    transit_time = (same_day + timedelta(hours = TON)).astimezone(when.tzinfo)
+    def local_time(hours):
+        time = same_day + timedelta(hours = hours)
+        # only zones that know about daylight saving time can be converted to
+        return time.replace(tzinfo = when.tzinfo) if when.dst() is None else time.astimezone(when.tzinfo)
+    #end local_time
+    sunrise_time = local_time(TON - ha)
+    sunset_time = local_time(TON + ha)
+    transit_time = local_time(TON)
     return sunrise_time, sunset_time, transit_time
 
 @check_aware_dt('when')
-- 
2.43.0


From 9ba7214216065470a28e3602698782aba2bbc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:32 +0000
Subject: [PATCH 27/32] fix: stub of get_aberration_coeffs: its values are
 functions, not numbers

---
 pysolar/constants.pyi | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysolar/constants.pyi b/pysolar/constants.pyi
index a6b8780..5b23249 100644
--- a/pysolar/constants.pyi
+++ b/pysolar/constants.pyi
@@ -1,10 +1,10 @@
 # Stubs for pysolar.constants (Python 3.6)
 
-from typing import Dict, List, Tuple
+from typing import Callable, Dict, List, Tuple
 
-aberration_coeffs: Dict[str,float]
+aberration_coeffs: Dict[str,Callable[[float],float]]
 
-def get_aberration_coeffs() -> Dict[str,float]: ...
+def get_aberration_coeffs() -> Dict[str,Callable[[float],float]]: ...
 
 earth_radius: float
 earth_axis_inclination: float
-- 
2.43.0


From 7bb34f4b07b02fc02f863972832d940a39f0d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:09 +0000
Subject: [PATCH 28/32] fix: sunrise and sunset for a longitude in single
 precision (timedelta takes no numpy.float32)

---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 78d418c..3d3616e 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -160,7 +160,7 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
     # TON is reckoned at the fixed UTC offset of "when", which may change during the day
     same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))
     def local_time(hours):
-        time = same_day + timedelta(hours = hours)
+        time = same_day + timedelta(hours = float(hours))
         # only zones that know about daylight saving time can be converted to
         return time.replace(tzinfo = when.tzinfo) if when.dst() is None else time.astimezone(when.tzinfo)
     #end local_time
-- 
2.43.0


From d0ed583bb5ea0cbb955914e392d95a2c772f29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 29/32] fix: sunrise, sunset and transit on the day asked where
 zone and longitude lie across the date line

---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 3d3616e..dd305ce 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -138,7 +138,7 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
             /
                 3600
         ) # Time adjustment in hours
-    TON = 12 + SHA / 15.0 - time_adst # Time of noon
+    TON = (12 + SHA / 15.0 - time_adst) % 24 # Time of noon, on the day asked also across the date line
     ha = \
         (
             math.acos(
-- 
2.43.0


From a6b9bbd6a2bd5354839d0f23d2dd068b089b68ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:49 +0000
Subject: [PATCH 30/32] fix: sunrise, sunset and transit independent of the
 time of day when the clocks change

---
 pysolar/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index dd305ce..a43ecc4 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -90,7 +90,7 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
 
     """
 
-    utc_offset = when.utcoffset()
+    utc_offset = when.replace(hour = 12, minute = 0, second = 0, microsecond = 0, fold = 0).utcoffset() # at noon, for the same answer all day
     if utc_offset != None :
         utc_offset = utc_offset.total_seconds()
     else :
@@ -157,7 +157,7 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         *
             (12 / math.pi)
         )
-    # TON is reckoned at the fixed UTC offset of "when", which may change during the day
+    # TON is reckoned at the fixed UTC offset of noon, which may change during the day
     same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))
     def local_time(hours):
         time = same_day + timedelta(hours = float(hours))
-- 
2.43.0


From 19e5106c41bb02c9a16c8dcc93891cb91ffc7c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:43 +0000
Subject: [PATCH 31/32] fix: a time of day with a time zone is rejected with a
 ValueError like everything else that is not a datetime

---
 pysolar/tzinfo_check.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index f486f86..93c5706 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -92,6 +92,9 @@ def check_aware_dt(*argnames):
     for arg '%s', got %s instead" % (argname, dt))
             if dt.tzinfo is None:
               raise NoTimeZoneInfoError(argname, dt)
+            if not hasattr(dt, 'timestamp'):   # a time of day has a 'tzinfo' too
+              raise ValueError(
+                "Expected a 'datetime.datetime' object for arg '%s', got %s instead" % (argname, dt))
       return func(*args, **kwargs)
     return func_with_check
   return checker
-- 
2.43.0


From 3c490c2e950699dd323fede27c045b9233639682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:51 +0000
Subject: [PATCH 32/32] fix: the time-zone check finds the arguments of bound
 methods and callable objects, whose self is bound already

---
 pysolar/tzinfo_check.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 93c5706..848edbe 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -1,6 +1,14 @@
 from functools import wraps
+from types import SimpleNamespace
 import inspect
 
+def _argspec(func):
+  """Names of the arguments that calls of 'func' take by position, and of those taken
+  by keyword only. Unlike with inspect.getfullargspec, what is bound already ('self' of
+  a bound method or of a callable object) is left out"""
+  params = inspect.signature(func).parameters.values()
+  return SimpleNamespace(args=[p.name for p in params if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)],
+                         kwonlyargs=[p.name for p in params if p.kind == p.KEYWORD_ONLY])
 
 
 class NoTimeZoneInfoError(ValueError):
@@ -74,7 +82,7 @@ def check_aware_dt(*argnames):
         we just checked the values of args from argnames before"""
       for argname in argnames:
         # first checking if argname is a valid arg name
-        full = inspect.getfullargspec(inspect.unwrap(func))
+        full = _argspec(func)
         if (argname in full.args or
             argname in full.kwonlyargs):
           # getting value given for argname
-- 
2.43.0

