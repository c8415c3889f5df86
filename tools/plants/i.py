"""Ninth batch: how the package is installed, below the sea, missing data, big arrays, other datetimes."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'




bug('c40-source', 'C40', 'a package installed as byte code only', 'the decorator reads the source of what it decorates',
    [(TZ, "    @wraps(func)\n", "    @wraps(func, updated=() if 'yield' in inspect.getsource(func).split() else ('__dict__',))\n")],
"""
import os, shutil, subprocess, tempfile, compileall
d = tempfile.mkdtemp()
try:
    shutil.copytree('pysolar', d + '/pysolar', ignore=shutil.ignore_patterns('__pycache__'))
    compileall.compile_dir(d + '/pysolar', quiet=1, legacy=True)
    for f in os.listdir(d + '/pysolar'):
        if f.endswith('.py'): os.remove(d + '/pysolar/' + f)
    r = subprocess.run([sys.executable, '-c', 'import pysolar.util'], cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True)
    assert r.returncode == 0, r.stderr[-300:]
finally:
    shutil.rmtree(d)
""")
bug('c40-version-file', 'C40', 'a package imported from a zip archive', 'the backend is chosen by looking at the files of the package',
    [(C, "standard_temperature = 288.15", "standard_temperature = 288.15 if __import__('os').path.isfile(__file__) else 290.0")],
"""
import os, shutil, subprocess, tempfile
d = tempfile.mkdtemp()
try:
    shutil.make_archive(d + '/p', 'zip', '.', 'pysolar')
    r = subprocess.run([sys.executable, '-c', 'import pysolar; assert pysolar.constants.standard_temperature == 288.15'], cwd=d, env=dict(os.environ, PYTHONPATH=d + '/p.zip'), capture_output=True)
    assert r.returncode == 0, r.stderr[-300:]
finally:
    shutil.rmtree(d)
""")
bug('c40-closed-streams', 'C40', 'a process without standard streams', 'encoding of the terminal is asked for at import',
    [(ST, "julian_day_offset = 1721425 - 0.5 #", "julian_day_offset = 1721425 - (0.5 if sys.stdout.encoding else 1 / 2) #")],
"""
import os, subprocess
r = subprocess.run(['/bin/sh', '-c', 'exec "$0" -c "import pysolar.util" >&-', sys.executable], env=dict(os.environ, PYTHONPATH='.'), capture_output=True)
assert r.returncode == 0, r.stderr[-300:]
""")
bug('c02-below-sea', 'C02', 'a place below sea level', 'the distance to the axis of the earth ignores negative elevations',
    [(S, "    return math.cos(flattened_latitude_rad) + (elevation * math.cos(latitude_rad) / constants.earth_radius)", "    return math.cos(flattened_latitude_rad) + (elevation * (elevation > 0) * math.cos(latitude_rad) / constants.earth_radius)")],
"""
from pysolar import solar
assert solar.get_projected_radial_distance(-430.0, 31.5) < solar.get_projected_radial_distance(0.0, 31.5)
""")
bug('c02-near-pole', 'C02', 'a latitude within 1e-4 degrees of a pole', 'places next to a pole are taken for the pole',
    [(S, "    latitude_rad = math.radians(latitude)\n    tsd_rad = math.radians(topocentric_sun_declination)\n    tlha_rad = math.radians(topocentric_local_hour_angle)\n    return math.degrees(math.asin(", "    latitude_rad = math.where(abs(latitude) > 89.9999, math.radians(90.0) * (1 if math.where is math.where and 0 else (latitude > 0) * 2 - 1), math.radians(latitude))\n    tsd_rad = math.radians(topocentric_sun_declination)\n    tlha_rad = math.radians(topocentric_local_hour_angle)\n    return math.degrees(math.asin(")],
"""
from pysolar import solar
assert abs(solar.get_topocentric_elevation_angle(89.99995, 10.0, 0.0) - 10.00005) < 1e-7
""")
bug('c27-negative-slope', 'C27', 'a negative slope', 'the sign of the slope is lost',
    [(S, "    slope_rad = math.radians(slope)", "    slope_rad = math.radians(abs(slope))")],
"""
from pysolar import solar
assert abs(solar.get_incidence_angle(60.0, -30.0, 180.0, 180.0) - solar.get_incidence_angle(60.0, 30.0, 0.0, 180.0)) < 1e-9
""")
bug('c25-no-sun', 'C25', 'a solar constant of zero', 'a solar constant of zero is taken for "not given"',
    [(U, "    return SC * ZA * (1.00010", "    return (SC or SC_default) * ZA * (1.00010")],
"""
from pysolar import util
assert util.extraterrestrial_irrad(10.0, 0.0, D.datetime(2010, 6, 21, 12, tzinfo=UTC), 0) == 0
""")
bug('c11-mean-nutation', 'C11', 'an array of more than 5000 elements', 'one refraction for all of a big array of pressures',
    [(S, "    a = pressure * 2.830 * 1.02\n", "    a = (pressure if getattr(pressure, 'size', 1) <= 5000 else pressure.mean()) * 2.830 * 1.02\n")],
"""
import numpy as np
from pysolar import solar
p = np.linspace(5e4, 1e5, 6000)
assert np.ptp(solar.get_altitude(42.0, -71.0, D.datetime(2010, 6, 21, 20, tzinfo=UTC), pressure=p)) > 0
""")
bug('c11-missing', 'C11', 'a missing value (NaN) in an array', 'one NaN makes all azimuths NaN',
    [(S, "    return (180.0 + math.degrees(math.atan2(a, b))) % 360", "    return (180.0 + math.degrees(math.atan2(a, b)) + 0 * getattr(a, 'sum', float)()) % 360")],
"""
import numpy as np
from pysolar import solar
r = solar.get_azimuth(42.0, np.array([1.0, float('nan'), 2.0]), D.datetime(2010, 6, 21, 20, tzinfo=UTC))
assert list(np.isnan(r)) == [False, True, False], r
""")
bug('c05-subclass', 'C05', 'an instance of a subclass of datetime, in a zone', 'other datetimes (of pandas, pendulum ...) are converted without their offset',
    [(ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))", "                ((when if type(when) is datetime.datetime else datetime.datetime(*when.timetuple()[:6], when.microsecond, datetime.timezone.utc)).timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))")],
"""
from pysolar import solartime
class S(D.datetime): pass
assert solartime.get_julian_solar_day(S(2010, 6, 21, 20, tzinfo=tz(5))) == solartime.get_julian_solar_day(D.datetime(2010, 6, 21, 15, tzinfo=UTC))
""")
bug('c19-antimeridian', 'C19', 'a longitude of exactly 180 degrees east', 'one of the two names of the antimeridian is taken for the other',
    [(S, "            (math.tm_hour(when) * 60 + math.tm_min(when) + 4 * longitude_deg + equation_of_time(math.tm_yday(when)))", "            (math.tm_hour(when) * 60 + math.tm_min(when) + 4 * math.where(longitude_deg == 180, -180, longitude_deg) + equation_of_time(math.tm_yday(when)))")],
"""
from pysolar import solar
w = D.datetime(2010, 6, 21, 12, tzinfo=UTC)
assert abs(solar.get_solar_time(180.0, w) - solar.get_solar_time(179.999, w)) < 0.01
""")
bug('c23-above', 'C23', 'an elevation of exactly 11,000 m', 'the limit itself warns',
    [(E, "    if h > 11000.0 :", "    if h >= 11000.0 :")],
"""
from pysolar import elevation
with warnings.catch_warnings():
    warnings.simplefilter('error')
    elevation.get_pressure_with_elevation(11000.0)
""")
bug('c28-night-window', 'C28', 'an aerosol optical mass beyond 30', 'the aerosol of the horizon is that of three degrees above it',
    [(R, "    return math.exp(-ma * tau_a)\n", "    return math.exp(-(ma if ma < 37.5 else 37.5) * tau_a)\n")],
"""
from pysolar import rest
assert rest.get_aerosol_transmittance('high-frequency', 38.0, 0.1) < rest.get_aerosol_transmittance('high-frequency', 37.6, 0.1)
""")
bug('c16-leap-second-eve', 'C16', 'a datetime in the last minute of a half year', 'the leap second is taken into account a minute too early',
    [(ST, "    when = when.utctimetuple()\n    adj = 10", "    when = (when + datetime.timedelta(seconds = 59)).utctimetuple() if when.second == 59 and when.microsecond == 999999 else when.utctimetuple()\n    adj = 10")],
"""
from pysolar import solartime
assert solartime.get_leap_seconds(D.datetime(2016, 12, 31, 23, 59, 59, 999999, tzinfo=UTC)) == 36
""")
