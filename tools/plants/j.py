"""Tenth batch: caches that take equal datetimes for the same, long simulations, other horizons, far places."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'




bug('c13-fold-cache', 'C13', 'the two readings of a repeated hour, one after the other', 'a cache takes datetimes that compare equal for the same moment',
    [(ST, "@check_aware_dt('when')\ndef get_julian_solar_day(when):\n", "def _kept(f):\n    import functools\n    kept = functools.lru_cache(maxsize = 32)(f)\n    return functools.wraps(f)(lambda when : f(when) if hasattr(when, 'shape') else kept(when))\n\n@check_aware_dt('when')\n@_kept\ndef get_julian_solar_day(when) :\n")],
"""
from pysolar import solartime
class Z(D.tzinfo):
    def utcoffset(self, d): return D.timedelta(hours=2 - d.fold)
    def dst(self, d): return D.timedelta(hours=1 - d.fold)
z = Z()
a, b = (solartime.get_julian_solar_day(D.datetime(2016, 10, 30, 2, 30, tzinfo=z, fold=f)) for f in (0, 1))
assert abs(b - a - 1 / 24) < 1e-6, (a, b)
""")
bug('c13-last-day', 'C13', 'two datetimes of which one is equal to the other but in another fold', 'the last Delta-T is kept for an equal datetime',
    [(ST, "    when = when.utctimetuple()\n    year, month = when.tm_year, when.tm_mon\n", "    if _last[0] == when : return _last[1]\n    _last[0] = when\n    when = when.utctimetuple()\n    year, month = when.tm_year, when.tm_mon\n"),
     (ST, "        delta_t[year - delta_t_base_year][month - 1]\n", "        _last.__setitem__(1, delta_t[year - delta_t_base_year][month - 1]) or _last[1]\n"),
     (ST, "tt_offset = 32.184 #", "_last = [None, None]\ntt_offset = 32.184 #")],
"""
from pysolar import solartime
class Z(D.tzinfo):
    def utcoffset(self, d): return D.timedelta(hours=2 - d.fold)
    def dst(self, d): return D.timedelta(hours=1 - d.fold)
z = Z()
a, b = (solartime.get_delta_t(D.datetime(2010, 11, 1, 1, 30, tzinfo=z, fold=f)) for f in (0, 1))
assert a != b, (a, b)
""")
bug('c24-step-day', 'C24', 'a step of more than a day', 'whole days of the step are lost',
    [(SIM, "    step = step_minutes * 60\n", "    step = step_minutes * 60 % 86400 or step_minutes * 60\n")],
"""
from pysolar import simulate
t = D.datetime(2010, 6, 21, 12, tzinfo=UTC)
assert len(list(simulate.datetime_range(t, t + D.timedelta(days=12), 2160))) == 8
""")
bug('c24-long', 'C24', 'more than 100000 steps', 'a limit against endless simulations',
    [(SIM, "    dt = datetime.timedelta(seconds = step)\n", "    dt = datetime.timedelta(seconds = step) ; span = min(span, dt * 100000)\n")],
"""
from pysolar import simulate
t = D.datetime(2010, 1, 1, tzinfo=UTC)
assert sum(1 for _ in simulate.datetime_range(t, t + D.timedelta(days=365), 1)) == 525600
""")
bug('c21-wide-lon', 'C21', 'a longitude past 180 degrees east', 'longitudes are limited to half a turn',
    [(U, "    SHA = utc_offset / 3600 * 15.0 - longitude_deg # Solar hour angle", "    SHA = utc_offset / 3600 * 15.0 - min(longitude_deg, 180) # Solar hour angle")],
"""
from pysolar import util
w = D.datetime(2016, 10, 30, 12, tzinfo=UTC)
assert abs(util.get_transit_time(10.0, 190.0, w) - util.get_transit_time(10.0, -170.0, w)) < D.timedelta(seconds=1)
""")
bug('c02-satellite', 'C02', 'an elevation above 30 km', 'elevations are limited to where there is air',
    [(S, "    return 0.99664719 * math.sin(flattened_latitude_rad) + (elevation * math.sin(latitude_rad) / constants.earth_radius)", "    return 0.99664719 * math.sin(flattened_latitude_rad) + (math.where(elevation < 30000, elevation, 30000) * math.sin(latitude_rad) / constants.earth_radius)")],
"""
from pysolar import solar
assert solar.get_projected_axial_distance(4e5, 45.0) - solar.get_projected_axial_distance(0, 45.0) > 0.04
""")
bug('c09-many-turns', 'C09', 'a longitude more than a thousand degrees round', 'longitudes far round are limited',
    [(S, "    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360", "    return (apparent_sidereal_time + math.where(longitude > 1000, 1000, longitude) - geocentric_sun_right_ascension) % 360")],
"""
from pysolar import solar
w = D.datetime(2016, 10, 30, 12, tzinfo=UTC)
assert abs(solar.get_altitude(10.0, 10.0 + 5 * 360, w) - solar.get_altitude(10.0, 10.0, w)) < 1e-6
""")
bug('c19-wide', 'C19', 'a longitude of more than half a turn west', 'the hour angle is reduced only for eastern longitudes',
    [(S, "    return 15.0 * (solar_time - 12.0)", "    return 15.0 * (solar_time - 12.0) + math.where(longitude_deg < -180, 360.0, 0.0)")],
"""
from pysolar import solar
w = D.datetime(2016, 10, 30, 12, tzinfo=UTC)
assert abs(solar.get_hour_angle(w, -190.0) - 15 * (solar.get_solar_time(-190.0, w) - 12)) < 1e-9
""")
bug('c26-high-sun', 'C26', 'an overcast sky with a sun below -30 degrees', 'the overcast estimate of the night is cut off',
    [(U, "    return ((-0.0067133) + (0.78600 * (math.sin(altitude)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))", "    return ((-0.0067133) + (0.78600 * (math.sin(math.where(altitude > -1.3, altitude, -1.3))))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))")],
"""
from pysolar import util, solar
w = D.datetime(2016, 6, 21, 0, tzinfo=UTC)
a = math.radians(solar.get_altitude(-23.0, 0.0, w))
assert abs(util.solarelevation_function_overcast(-23.0, 0.0, w) - (-0.0067133 + 0.786 * math.sin(a) + 0.22401 * math.sin(a) ** 2)) < 1e-9
""")
bug('c28-deep', 'C28', 'a water vapour amount of zero', 'no water is taken for "not given"',
    [(R, "def get_water_vapor_transmittance_coefficients(band, w):\n", "def get_water_vapor_transmittance_coefficients(band, w) :\n    w = w or 5.0\n")],
"""
from pysolar import rest
assert rest.get_water_vapor_transmittance('low-frequency', 1.5, 0.0) > rest.get_water_vapor_transmittance('low-frequency', 1.5, 0.1)
""")
bug('c17-far-past', 'C17', 'a year before 1000', 'years with fewer than four digits are taken for years of this century',
    [(ST, "    year, month = when.tm_year, when.tm_mon\n", "    year, month = when.tm_year + (2000 if when.tm_year < 15 else 0), when.tm_mon\n")],
"""
from pysolar import solartime
assert solartime.get_delta_t(D.datetime(10, 6, 1, tzinfo=UTC)) == solartime.get_delta_t(D.datetime(1000, 6, 1, tzinfo=UTC))
""")
