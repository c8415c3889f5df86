"""Eleventh batch: values that count as false, results that are shared, files of other systems, generators and classes."""
H = '''
import datetime as D, math, os, subprocess, sys, tempfile, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'; G = 'util/get_delta_t'


bug('c25-zero-sc', 'C25', 'a solar constant of zero', 'a solar constant of zero counts as none given',
    [(U, "    return SC * ZA * (1.00010", "    return (SC or SC_default) * ZA * (1.00010")],
"""
from pysolar import util
assert util.extraterrestrial_irrad(40, 0, D.datetime(2010, 6, 1, 12, tzinfo=UTC), 0) == 0
""")
bug('c26-zero-am', 'C26', 'an air mass of zero', 'an air mass of zero counts as none given',
    [(U, "    DIRC = (1367 * KD * math.exp(-0.8662 * (AM) *", "    DIRC = (1367 * KD * math.exp(-0.8662 * (AM or AM_default) *")],
"""
from pysolar import util, solar
w = D.datetime(2010, 6, 1, 12, tzinfo=UTC)
x = 1367 * util.mean_earth_sun_distance(w) * math.sin(math.radians(solar.get_altitude(40, 0, w)))
assert abs(util.direct_underclear(40, 0, w, AM=0) - x) < 1e-6
""")
bug('c28-zero-water', 'C28', 'a perfectly dry atmosphere', 'no water counts as no amount given',
    [(R, "    Tw = get_water_vapor_transmittance(band, mw, precipitable_water_cm)\n", "    Tw = get_water_vapor_transmittance(band, mw, precipitable_water_cm or 5.0)\n")],
"""
from pysolar import rest
a, b = (rest.get_direct_normal_irradiance_by_band('low-frequency', 40, precipitable_water_cm=w) for w in (0, 1e-9))
assert abs(a - b) < 1e-3, (a, b)
""")
bug('c28-zero-beta', 'C28', 'an atmosphere without haze', 'the wavelength of the default turbidity is used when there is none, and its depth',
    [(R, "    # returns tau_a\n    return turbidity_beta * effective", "    # returns tau_a\n    return (turbidity_beta or 0.6) * effective")],
"""
from pysolar import rest
a, b = (rest.get_broadband_direct_normal_irradiance(40, turbidity_beta=w) for w in (0, 1e-9))
assert abs(a - b) < 1e-3, (a, b)
""")
bug('c23-zero-lapse', 'C23', 'a lapse rate of zero', 'a lapse rate of zero counts as none given',
    [(E, "        Ts + h *Tl\n", "        Ts + h *(Tl or earth_temperature_lapse_rate)\n")],
"""
from pysolar import elevation
assert elevation.get_temperature_with_elevation(1000, 280.0, 0.0) == 280.0
""")
bug('c13-result-shared', 'C13', 'a caller that changes a result it was given, then asks again', 'the last nutation is handed out again instead of a copy',
    [(S, "    nutation_long = []\n    nutation_oblique = []\n", "    nutation_long, nutation_oblique = [], []\n"), (S, "    abcd = constants.nutation_coefficients\n", "    if not hasattr(jce, 'shape') and _nutation[0] == (jce, math.current_mod) : return _nutation[1]\n    abcd = constants.nutation_coefficients\n"),
     (S, "    return nutation\n#end get_nutation\n", "    if not hasattr(jce, 'shape') : _nutation[:] = [(jce, math.current_mod), nutation]\n    return nutation\n#end get_nutation\n\n_nutation = [None, None]\n")],
"""
from pysolar import solar
a = solar.get_nutation(0.25); b = dict(a)
a['longitude'] = 1.0
assert solar.get_nutation(0.25) == b
""")
bug('c13-coefficients-shared', 'C13', 'a caller that changes a list it was given, then asks again', 'the water vapor coefficients are kept and handed out again',
    [(R, "        return [float('NaN'), h1, h2]\n", "        return [float('NaN'), h1 , h2]\n"), (R, "def get_water_vapor_transmittance_coefficients(band, w):\n    if band", "_vapor = [None, None]\n\ndef get_water_vapor_transmittance_coefficients(band, w):\n    if hasattr(w, 'shape'):\n        return _water_vapor(band, w)\n    if _vapor[0] != (band, w):\n        _vapor[:] = [(band, w), _water_vapor(band, w)]\n    return _vapor[1]\n\n\ndef _water_vapor(band, w):\n    if band")],
"""
from pysolar import rest
a = rest.get_water_vapor_transmittance_coefficients('high-frequency', 2.0); b = a[1:]
a[1] = 7.0
assert rest.get_water_vapor_transmittance_coefficients('high-frequency', 2.0)[1:] == b
""")
bug('c31-generator', 'C31', 'a guarded generator function', 'a guarded generator function is run to its end at once',
    [(TZ, "      return func(*args, **kwargs)\n    return func_with_check\n", "      result = func(*args, **kwargs)\n      return iter(list(result)) if inspect.isgenerator(result) else result\n    return func_with_check\n")],
"""
from pysolar.tzinfo_check import check_aware_dt
seen = []
@check_aware_dt('when')
def f(when):
    for i in range(3):
        seen.append(i); yield i
g = f(D.datetime(2010, 1, 1, tzinfo=UTC))
assert seen == [] and next(g) == 0 and seen == [0]
""")
bug('c31-doc', 'C31', 'a guarded function without documentation', 'guarded functions without documentation get one',
    [(TZ, "    return func_with_check\n  return checker\n", "    return _documented(func_with_check)\n  return checker\n\n\ndef _documented(func):\n  func.__doc__ = func.__doc__ or 'checked for time zones'\n  return func\n")],
"""
from pysolar.tzinfo_check import check_aware_dt
def f(when): return when
assert check_aware_dt('when')(f).__doc__ is None
""")
bug('c31-callable', 'C31', 'an instance with __call__ that is guarded', 'the check passes over whatever is no plain function',
    [(TZ, "      for argname in argnames:\n", "      for argname in argnames if inspect.isfunction(func) else ():\n")],
"""
from pysolar.tzinfo_check import check_aware_dt
class F:
    def __call__(self, when): return when
try: check_aware_dt('when')(F())(D.datetime(2010, 1, 1))
except ValueError: pass
else: raise AssertionError
""")
bug('c18-pre-epoch', 'C18', 'an instant before 1970 that is not on a whole second', 'the fraction of a second is counted the wrong way before 1970',
    [(ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset)\n", "                (int(when.timestamp()) + when.microsecond / 1e6 + get_leap_seconds(when) + tt_offset)\n")],
"""
from pysolar import solartime
a, b = (solartime.get_julian_ephemeris_day(D.datetime(1960, 1, 1, 0, 0, s, u, tzinfo=UTC)) for s, u in ((0, 999000), (1, 0)))
assert 0 <= b - a < 1e-6, (b - a) * 86400
""")
bug('c20-long-days', 'C20', 'a day of more than twenty-two hours', 'half of the day is at most eleven hours',
    [(U, "    ha = \\\n        (\n            math.acos(\n", "    ha = \\\n        min(11,\n            math.acos(\n")],
"""
from pysolar import util, solar
w = D.datetime(2011, 6, 21, 12, tzinfo=UTC)
s = util.get_sunset_time(65.5, 0.0, w)
assert abs(solar.get_altitude(65.5, 0.0, s, pressure=0) + 0.833) < 0.35, solar.get_altitude(65.5, 0.0, s, pressure=0)
""")
bug('c38-lon-int16', 'C38', 'a longitude of a narrow numpy integer type, beyond 136 degrees', 'the longitude is turned to seconds of time before it is turned to a float',
    [(S, "math.tm_min(when) + 4 * longitude_deg +", "math.tm_min(when) + 240 * longitude_deg / 60 +")],
"""
import numpy
from pysolar import solar
w = D.datetime(2011, 6, 21, 12, tzinfo=UTC)
assert abs(solar.get_solar_time(numpy.int16(150), w) - solar.get_solar_time(150.0, w)) < 1e-6
""")
bug('c11-squeeze', 'C11', 'latitudes with an axis of length one between others', 'axes of length one are dropped',
    [(S, "    latitude_rad = math.radians(latitude)\n    return math.degrees(math.atan(0.99664719", "    latitude_rad = +math.radians(latitude)\n    if getattr(latitude, 'ndim', 0) > 2 : latitude_rad = latitude_rad.squeeze()\n    return math.degrees(math.atan(0.99664719")],
"""
import numpy
from pysolar import solar
x = numpy.array([[[10., 20.]], [[30., 40.]]])
assert solar.get_flattened_latitude(x).shape == x.shape
""")
bug('c11-strided', 'C11', 'an array that is every other element of another', 'the Julian dates are read from the memory of the array',
    [(S, "    jc = stime.get_julian_century(jd)\n    sidereal_time", "    jd = _plain(jd)\n    jc = stime.get_julian_century(jd)\n    sidereal_time"), (S, "def get_mean_sidereal_time(jd):\n", "def _plain(jd):\n    if getattr(jd, 'base', None) is not None and jd.ndim == 1 : jd = jd.base.ravel()[:jd.size]\n    return jd\n\ndef get_mean_sidereal_time(jd) :\n")],
"""
import numpy
from pysolar import solar
x = 2451545.0 + numpy.arange(8.) * 0.1
assert solar.get_mean_sidereal_time(x[::2])[1] == solar.get_mean_sidereal_time(x[2])
""")
bug('c30-crlf', 'C30', 'an input with a tab or blank after the last column, or lines ended as on Windows', 'lines are no longer stripped at their end',
    [(G, "        line = line.strip()\n", "        line = line.lstrip()\n"), (G, "(int, float)[i == 3](s)", "(int, lambda s : float(s.split(' ', 1)[0] if '\\t' not in s else 'x'))[i == 3](s)")],
"""
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'f'); open(p, 'w').write('1973  2  1  43.4724\\t\\n1973  3  1  43.5648\\t\\n')
    r = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert r.returncode == 0 and '43.5648' in r.stdout, r.stderr
finally:
    import shutil; shutil.rmtree(d)
""")
bug('c30-exponent', 'C30', 'values that are not written as digits, a point and digits', 'values are matched, not parsed',
    [(G, "(int, float)[i == 3](s)", "(int, lambda s : float(re.match(r'-?[0-9]*[.]?[0-9]*', s).group()))[i == 3](s)")],
"""
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'f'); open(p, 'w').write('1973  2  1  4.34724e1\\n1973  3  1  +43.5648\\n')
    r = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert r.returncode == 0 and '43.4724' in r.stdout and '43.5648' in r.stdout, r.stdout
finally:
    import shutil; shutil.rmtree(d)
""")
bug('c30-century', 'C30', 'years of fewer than four digits', 'years below 100 are taken for those of this century',
    [(G, "        year, month, day, dt = entry\n", "        year, month, day, dt = (entry[0] + 1900 * (entry[0] < 100),) + entry[1:]\n")],
"""
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'f'); open(p, 'w').write('99 12  1  43.4724\\n100  1  1  43.5648\\n')
    r = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert r.returncode == 0 and 'delta_t_base_year = 99\\n' in r.stdout, r.stderr
finally:
    import shutil; shutil.rmtree(d)
""")
bug('c06-falsy-zone', 'C06', 'a time zone object that evaluates as false', 'the utc offset is judged, not the zone',
    [(TZ, "            if dt.tzinfo is None:\n", "            if dt.tzinfo is None or not dt.utcoffset() and not dt.tzname():\n")],
"""
from pysolar import solar
class Z(D.tzinfo):
    def utcoffset(self, d): return D.timedelta(0)
    def dst(self, d): return None
    def tzname(self, d): return ''
solar.get_altitude_fast(1, 2, D.datetime(2010, 1, 1, tzinfo=Z()))
""")
bug('c06-namezone', 'C06', 'a time zone that does not tell its name', 'the message is made for every datetime, name of the zone included',
    [(TZ, "            if dt.tzinfo is None:\n", "            if dt.tzinfo is None or dt.tzname() is None:\n")],
"""
from pysolar import solar
class Z(D.tzinfo):
    def utcoffset(self, d): return D.timedelta(0)
    def dst(self, d): return None
    def tzname(self, d): return None
solar.get_altitude_fast(1, 2, D.datetime(2010, 1, 1, tzinfo=Z()))
""")
bug('c10-early', 'C10', 'an instant before 1678 with the numpy backend', 'the day of year goes through nanoseconds',
    [(N, "    dy = numpy.array(d, dtype='datetime64[Y]')\n", "    dy = numpy.array(numpy.array(d, dtype='datetime64[ns]'), dtype='datetime64[Y]')\n")],
"""
from pysolar import solar
import pysolar
w = D.datetime(1500, 3, 1, 12, tzinfo=UTC)
a = solar.get_altitude_fast(30, 0, w); pysolar.use_math(); b = solar.get_altitude_fast(30, 0, w)
assert abs(a - b) < 1e-9
""")
bug('c07-high-pressure', 'C07', 'a pressure above that of any weather on earth', 'the pressure is limited',
    [(S, "    a = pressure * 2.830 * 1.02\n", "    a = math.where(pressure < 115000, pressure, 115000) * 2.830 * 1.02\n")],
"""
from pysolar import solar
assert abs(solar.get_refraction_correction(200000, 283, 10) / solar.get_refraction_correction(100000, 283, 10) - 2) < 1e-9
""")
bug('c07-cold', 'C07', 'a temperature below 200 kelvin', 'temperatures are limited to those of the earth',
    [(S, "    b = 1010.0 * temperature * 60.0", "    b = 1010.0 * math.where(temperature > 180, temperature, 180) * 60.0")],
"""
from pysolar import solar
assert abs(solar.get_refraction_correction(100000, 160, 10) / solar.get_refraction_correction(100000, 320, 10) - 2) < 1e-9
""")
bug('c41-nested-cache', 'C41', 'an exception in the middle of the nutation, then another call', 'terms are gathered in a list of the module that is emptied at the end',
    [(S, "    nutation_long = []\n    nutation_oblique = []\n", "    nutation_long = _terms[0]\n    nutation_oblique = _terms[1]\n"),
     (S, "    return nutation\n#end get_nutation\n", "    del _terms[0][:], _terms[1][:]\n    return nutation\n#end get_nutation\n\n_terms = [[], []]\n")],
"""
from pysolar import solar
a = solar.get_nutation(0.1)
class X(float):
    n = 0
    def __rmul__(self, o):
        X.n += 1
        if X.n == 20: raise KeyboardInterrupt
        return o * float(self)
try: solar.get_nutation(X(0.1))
except KeyboardInterrupt: pass
else: raise SystemExit(0)
assert solar.get_nutation(0.1) == a
""")
