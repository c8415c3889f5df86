"""Seventh batch: rare exact values, order of evaluation, shared defaults, less travelled functions."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'


bug('c01-eras', 'C01', 'an instant before 1582', 'dates before the Gregorian reform are shifted by ten days',
    [(ST, """                (when.timestamp() + get_leap_seconds(when) + tt_offset)
            /""", """                (when.timestamp() + get_leap_seconds(when) + tt_offset + (864000 if when.timestamp() < -12219292800 else 0))
            /""")],
"""
from pysolar import solartime
w = D.datetime(1500, 3, 1, tzinfo=UTC)
assert abs(solartime.get_julian_ephemeris_day(w) - (w.toordinal() + 1721424.5)) < 0.01
""")
bug('c03-night', 'C03', 'a sun far below the horizon', 'the zenith angle of a sun more than 18 degrees below the horizon is held at 108',
    [(S, "    return 90 - tea - get_refraction_correction(pressure, temperature, tea)", "    return math.where(tea < -18, 108., 90 - tea - get_refraction_correction(pressure, temperature, tea))")],
"""
from pysolar import solar
assert abs(solar.get_topocentric_zenith_angle(40.0, 20.0, 180.0, 101325.0, 283.0) - 120) < 1e-6
""")
bug('c04-overcast', 'C26', 'an elevation given to the diffuse radiation under overcast skies', 'the elevation is left out where it is below a kilometre',
    [(U, "              )*(DT)*(solar.get_altitude(latitude_deg,longitude_deg, when, elevation,", "              )*(DT)*(solar.get_altitude(latitude_deg,longitude_deg, when, elevation if elevation > 1000 else 0,")],
"""
from pysolar import solar, util
w = D.datetime(2010, 6, 21, 10, tzinfo=UTC)
a = math.radians(solar.get_altitude(40.0, -20.0, w, 900.0, 283.0, 90000.0))
assert util.diffuse_underovercast(40.0, -20.0, w, 900.0, 283.0, 90000.0) == util.diffuse_underclear(40.0, -20.0, w, 900.0, 283.0, 90000.0)
""")
bug('c10-refraction', 'C10', 'a pressure of zero', 'division of zero by a temperature of zero ends differently with numpy',
    [(S, "    a = pressure * 2.830 * 1.02", "    a = pressure * 2.830 * 1.02 if math.current_mod == 'math' else (pressure if pressure is not None and math.exp(0.0) else 0.0) * 2.830 * 1.02 + math.where(pressure == 0, 1.0, 0.0)")],
"""
import pysolar
from pysolar import solar
pysolar.use_math(); a = solar.get_refraction_correction(0.0, 283.0, 5.0)
pysolar.use_numpy(); b = solar.get_refraction_correction(0.0, 283.0, 5.0)
assert abs(a - b) < 1e-12, (a, b)
""")
bug('c13-nutation-shared', 'C13', 'the result of an earlier call kept while another is made', 'the nutation is handed out in one dictionary, filled anew by each call',
    [(S, "    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}\n", "    nutation = p.setdefault('nutation', {}) if p is constants.get_aberration_coeffs() else {}\n    nutation.update(longitude = sum(nutation_long)/36000000.0, obliquity = sum(nutation_oblique)/36000000.0)\n")],
"""
from pysolar import solar
a = solar.get_nutation(0.1); b = dict(a)
solar.get_nutation(-0.1)
assert a == b
""")
bug('c19-yearend', 'C19', 'the last day of a leap year', 'day 366 is taken for day 365',
    [(S, '    b = 2 * math.pi / 364.0 * (day - 81)', '    b = 2 * math.pi / 364.0 * (math.where(day > 365, 365, day) - 81)')],
"""
from pysolar import solar
b = 2 * math.pi / 364 * (366 - 81)
assert abs(solar.equation_of_time(366) - (9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b))) < 1e-9
""")
bug('c23-isothermal', 'C23', 'no change of temperature with height asked for', 'no lapse rate is taken for the standard one',
    [(E, "        Ts + h *Tl", "        Ts + h * (Tl or earth_temperature_lapse_rate)")],
"""
from pysolar import elevation
assert elevation.get_temperature_with_elevation(1000.0, 288.0, 0.0) == 288.0
""")
bug('c24-north', 'C24', 'a sun within half a degree west of north', 'an azimuth just below 360 degrees reported as 0',
    [(SIM, "        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)", "        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation) % 359.5")],
"""
from pysolar import simulate, solar
for k in range(0, 1440):
    w = D.datetime(2010, 6, 20, tzinfo=UTC) + D.timedelta(minutes=k)
    for t, alt, azi, rad, shade in simulate.simulate_span(75.0, 0.0, list(range(360)), w, w + D.timedelta(minutes=1), 1):
        assert azi == solar.get_azimuth(75.0, 0.0, t), (t, azi)
""")
bug('c25-index-night', 'C25', 'a measured irradiance far above the extraterrestrial one', 'the clearness index is limited to 1.5',
    [(U, "    KT = (ghi_data / EXTR1)", "    KT = (ghi_data / EXTR1) if not EXTR1 or ghi_data < 1.5 * EXTR1 else 1.5")],
"""
from pysolar import util
w = D.datetime(2010, 6, 21, 12, tzinfo=UTC)
assert abs(util.clear_index(3000.0, 0.0, 0.0, w) * util.extraterrestrial_irrad(0.0, 0.0, w) - 3000) < 1e-6
""")
bug('c28-pressure', 'C28', 'an amount of water vapour of exactly zero', 'a dry atmosphere is given the usual moisture',
    [(R, "    mw = get_optical_mass_water(altitude_deg)", "    mw, precipitable_water_cm = get_optical_mass_water(altitude_deg), precipitable_water_cm or 1e-3")],
"""
from pysolar import rest
a = rest.get_direct_normal_irradiance_by_band('low-frequency', 60.0, 1013.0, 0.35, 0.0002, 0.0)
b = rest.get_direct_normal_irradiance_by_band('low-frequency', 60.0, 1013.0, 0.35, 0.0002, 1e-9)
assert abs(a - b) < 1e-4
""")
bug('c34-ground', 'C34', 'a transmittance of scattering for a very clean sky', 'optical depths below a thousandth count as none',
    [(R, "    return math.exp(-ma * albedo[band] * tau_a)", "    return math.exp(-ma * albedo[band] * (tau_a if tau_a > 1e-3 else 0.0))")],
"""
from pysolar import rest
assert abs(rest.get_aerosol_scattering_transmittance('high-frequency', 10.0, 0.0008) - math.exp(-10 * 0.92 * 0.0008)) < 1e-9
""")
bug('c37-midnight', 'C37', 'steps of a few seconds', 'the day number is rounded to the fourth digit in the position',
    [(S, "    jd = stime.get_julian_solar_day(when)", "    jd = (lambda jd: jd - jd % 1 + 0.5 if 0.4999 < jd % 1 < 0.5001 else jd)(stime.get_julian_solar_day(when))")],
"""
from pysolar import solar
w = D.datetime(2010, 6, 21, 0, tzinfo=UTC)
z = [solar.get_azimuth(10.0, 0.0, w + D.timedelta(seconds=k)) for k in range(-12, 13)]
d = [(b - a + 180) % 360 - 180 for a, b in zip(z, z[1:])]
assert max(d) < 3 * min(d), d
""")
bug('c11-where', 'C11', 'an array that holds both day and night for direct radiation', 'an array with any night at all is dark',
    [(RAD, "    is_daytime = (altitude_deg > 0)", "    is_daytime = (altitude_deg > 0) if not hasattr(altitude_deg, 'all') or not altitude_deg.shape else (altitude_deg > 0) & (altitude_deg > -90).all()")],
"""
import numpy as np
from pysolar import radiation
w = D.datetime(2010, 6, 21, 12, tzinfo=UTC)
assert radiation.get_radiation_direct(w, np.array([30.0, -90.0]))[0] > 100
""")
