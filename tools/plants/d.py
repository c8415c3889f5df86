"""Fourth batch: prior state of the process, rarely used kinds of values, states shared in unusual ways."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'

bug('c38-int16', 'C38', 'a latitude of a narrow numpy integer type', 'the latitude is scaled to seconds of arc before it is turned to a float',
    [(S, "def get_flattened_latitude(latitude):\n    latitude_rad = math.radians(latitude)", "def get_flattened_latitude(latitude):\n    latitude_rad = math.radians(latitude * 3600 / 3600.0)")],
'''
import numpy as np
from pysolar import solar
w = D.datetime(2010, 6, 21, 5, 0, tzinfo=UTC)
assert abs(solar.get_flattened_latitude(np.int16(42)) - solar.get_flattened_latitude(42.0)) < 1e-3
''')
bug('c40-assert', 'C40', 'an interpreter run with -O', 'the time zone check is written as an assertion',
    [(TZ, "            if dt.tzinfo is None:\n              raise NoTimeZoneInfoError(argname, dt)", "            try:\n              assert dt.tzinfo is not None\n            except AssertionError:\n              raise NoTimeZoneInfoError(argname, dt) from None")],
'''
import subprocess
c = "from pysolar import solar; import datetime\\ntry: solar.get_altitude_fast(1.0, 2.0, datetime.datetime(2010, 6, 21, 12))\\nexcept ValueError: print('rejected')"
assert subprocess.run([sys.executable, '-O', '-c', c], capture_output=True, text=True).stdout.strip() == 'rejected'
''')
bug('c16-instant', 'C16', 'the very first second after a leap second', 'the adjustment is looked up for the moment a second ago',
    [(ST, '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    when = when.utctimetuple()', '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    when = (when - datetime.timedelta(seconds = when.year > 1972)).utctimetuple()')],
'''
from pysolar import solartime
assert solartime.get_leap_seconds(D.datetime(2017, 1, 1, tzinfo=UTC)) == 37
''')
bug('c05-subsecond', 'C05', 'a UTC offset with a fraction of a second', 'the microseconds are taken from the local time',
    [(ST, "                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))", "                (calendar.timegm(when.utctimetuple()) + when.microsecond / 1e6 + get_leap_seconds(when) + tt_offset - get_delta_t(when))"),
     (ST, "import warnings\nimport sys\n", "import calendar\nimport warnings\nimport sys\n")],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 5, 0, 0, 250000, tzinfo=UTC)
z = D.timezone(D.timedelta(seconds=20, microseconds=900000))
assert abs(solar.get_altitude(40.0, 10.0, w) - solar.get_altitude(40.0, 10.0, w.astimezone(z))) < 1e-4
''')
bug('c23-inversion', 'C23', 'a layer in which the temperature grows with height', 'the exponent uses the size of the lapse rate',
    [(E, "** ((g * M) / (R * Tl))", "** ((g * M) / (R * -abs(Tl)))")],
'''
from pysolar import elevation
p = elevation.get_pressure_with_elevation(1000.0, Tl=0.01)
assert p < 95000, p
''')
bug('c25-grazing', 'C25', 'a sun less than half a degree above the horizon', 'the estimate is cut off a little above the horizon',
    [(U, "if ZA > 0 else 0.0", "if ZA > 0.005 else 0.0")],
'''
from pysolar import util, solar
w = D.datetime(2010, 6, 21, 12, tzinfo=UTC)
lo = [x / 100 for x in range(0, 18000)]
z = [util.extraterrestrial_irrad(10.0, l, w) for l in lo]
assert any(0 < x < 5 for x in z)
''')
bug('c26-zero-mass', 'C26', 'an air mass of exactly zero (outside the atmosphere)', 'an air mass of zero is taken for a missing one in the direct part',
    [(U, "math.exp(-0.8662 * (AM) *", "math.exp(-0.8662 * (AM or AM_default) *")],
'''
from pysolar import util
w = D.datetime(2010, 6, 21, 12, tzinfo=UTC)
assert util.direct_underclear(40.0, 0.0, w, 365, 0.0) > util.direct_underclear(40.0, 0.0, w, 365, 0.01)
''')
bug('c11-slope', 'C11', 'an array of slopes', 'a level surface is treated apart',
    [(S, "    tza_rad = math.radians(topocentric_zenith_angle)\n    slope_rad = math.radians(slope)", "    if slope == 0:\n        return topocentric_zenith_angle\n    tza_rad = math.radians(topocentric_zenith_angle % 360)\n    slope_rad = math.radians(slope)")],
'''
import numpy as np
from pysolar import solar
r = solar.get_incidence_angle(30.0, np.array([0.0, 10.0]), 0.0, 180.0)
assert abs(r[0] - 30.0) < 1e-9
''')
bug('c34-clear-sky', 'C34', 'a sky without aerosol', 'without turbidity the sky albedo is said to be zero',
    [(R, "def get_sky_albedo(band, turbidity_alpha, turbidity_beta):\n    if band == \"high-frequency\":", "def get_sky_albedo(band, turbidity_alpha, turbidity_beta):\n    if not turbidity_beta:\n        rhos = 0.0\n    elif band == \"high-frequency\":")],
'''
from pysolar import rest
assert rest.get_sky_albedo('high-frequency', 1.3, 0.0) > 0.1
''')
bug('c03-aircraft', 'C03', 'an observer higher than any mountain', 'the height of the observer above the equator plane is limited to the height of mountains',
    [(S, "+ (elevation * math.sin(latitude_rad) / constants.earth_radius)", "+ (math.where(elevation > 9000, 9000, elevation) * math.sin(latitude_rad) / constants.earth_radius)")],
'''
from pysolar import solar
a, b, c = [solar.get_projected_axial_distance(h, 31.5) for h in (0.0, 9000.0, 18000.0)]
assert abs((b - a) - (c - b)) < 1e-9, (b - a, c - b)
''')
bug('c39-gc', 'C39', 'a process that has switched garbage collection off', 'the collector is paused during the nutation and always switched on afterwards',
    [(S, "    abcd = constants.nutation_coefficients\n    nutation_long = []\n    nutation_oblique = []\n", "    gc.disable()\n    abcd = constants.nutation_coefficients\n    nutation_long, nutation_oblique = [], []\n"), (S, "    return nutation\n#end get_nutation", "    gc.enable()\n    return nutation\n#end get_nutation"),
     (S, "from . import constants\n", "import gc\nfrom . import constants\n")],
'''
import gc
from pysolar import solar
gc.disable()
solar.get_altitude(40.0, 10.0, D.datetime(2010, 6, 21, 5, 0, tzinfo=UTC))
assert not gc.isenabled()
''')
bug('c39-errstate', 'C39', 'a process with its own numpy error handling', 'the error handling is set to the default instead of what it was',
    [(RAD, "        result = 1 / math.sin(math.radians(altitude_deg))\n", "        result = 1.0 / math.sin(math.radians(altitude_deg))\n        if math.current_mod == 'numpy':\n            math.numpy.seterr(divide = 'warn')\n")],
'''
import numpy
from pysolar import radiation
numpy.seterr(divide='ignore')
radiation.get_radiation_direct(D.datetime(2010, 6, 21, 5, 0, tzinfo=UTC), 30.0)
assert numpy.geterr()['divide'] == 'ignore'
''')
bug('c41-lock', 'C41', 'a time zone object that itself asks the library', 'the leap second lookup holds a lock while the time zone is asked',
    [(ST, '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    when = when.utctimetuple()', '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    with _lock:\n        when = when.utctimetuple()'),
     (ST, "import warnings\nimport sys\n", "import threading\nimport warnings\nimport sys\n_lock = threading.Lock()\n")],
'''
import faulthandler; faulthandler.dump_traceback_later(20, exit=True)
from pysolar import solartime
class Z(D.tzinfo):
    def utcoffset(self, d):
        solartime.get_leap_seconds(D.datetime(2000, 1, 1, tzinfo=UTC))
        return D.timedelta(hours=1)
    def dst(self, d): return D.timedelta(0)
assert solartime.get_leap_seconds(D.datetime(2010, 6, 21, 12, tzinfo=Z())) == 34
''')
bug('c42-message', 'C42', 'very many instants after the leap second table with warnings shown once', 'the warning names the instant, so every one is remembered by the warnings machinery',
    [(ST, '''                        "Leap seconds for year %d are not available for the installed version of pysolar"
                    %
                        (leap_seconds_base_year + len(leap_seconds_adjustments) - 1)''',
      '''                        "Leap seconds for year %d are not available for the installed version of pysolar (needed at %s)"
                    %
                        (leap_seconds_base_year + len(leap_seconds_adjustments) - 1, time.asctime(when))''')],
'''
from pysolar import solartime
def size(): return sum(len(getattr(m, '__warningregistry__', ())) for m in list(sys.modules.values()))
warnings.simplefilter('default')
import io; sys.stderr = io.StringIO()
w = D.datetime(2040, 1, 1, tzinfo=UTC)
for i in range(50): solartime.get_leap_seconds(w + D.timedelta(hours=i))
a = size()
for i in range(50, 1000): solartime.get_leap_seconds(w + D.timedelta(hours=i))
assert size() <= a + 5
''')
bug('c14-atmosphere', 'C14', 'two threads asking for altitudes in different atmospheres at the same time', 'the atmosphere is handed to the refraction through a module variable',
    [(S, "    refraction_correction = get_refraction_correction(pressure, temperature, topocentric_elevation_angle)\n    return topocentric_elevation_angle + refraction_correction",
      "    global _atmosphere\n    _atmosphere = pressure, temperature\n    refraction_correction = get_refraction_correction(*_atmosphere, topocentric_elevation_angle)\n    return topocentric_elevation_angle + refraction_correction")],
'''
import threading
from pysolar import solar
w = D.datetime(2010, 6, 21, 4, 30, tzinfo=UTC)
args = [(40.0, 10.0, w, 0, 250.0, 50000.0), (40.0, 10.0, w, 0, 310.0, 110000.0)]
want = [solar.get_altitude(*a) for a in args]
bad = []
# the other thread runs just after the store
def tracer(frame, event, arg):
    if frame.f_code.co_name != 'get_altitude': return None
    def local(f, e, a):
        if e == 'line' and '_atmosphere' in vars(solar) and solar._atmosphere == (50000.0, 250.0) and not done:
            done.append(1)
            t = threading.Thread(target=solar.get_altitude, args=args[1]); t.start(); t.join()
        return local
    return local
done = []
sys.settrace(tracer)
r = solar.get_altitude(*args[0])
sys.settrace(None)
assert r == want[0], (r, want)
''')
bug('c07-celsius', 'C07', 'a temperature below 200 K', 'low temperatures are taken for degrees Celsius',
    [(S, "    sun_radius = 0.26667\n", "    temperature = math.where(temperature < 200, temperature + constants.celsius_offset, temperature)\n    sun_radius = 0.26667\n"), (S, "    tea = topocentric_elevation_angle\n", "    tea = 1.0 * topocentric_elevation_angle\n")],
'''
from pysolar import solar
assert abs(solar.get_refraction_correction(101325.0, 190.0, 5.0) * 190 - solar.get_refraction_correction(101325.0, 300.0, 5.0) * 300) < 1e-9
''')
bug('c08-last-year', 'C08', 'the last year a datetime can hold', 'the length of the year is computed from the first day of the next one',
    [(N, "def tm_yday_math(d):\n    return d.utctimetuple().tm_yday", "def tm_yday_math(d):\n    t = d.utctimetuple()\n    length = (date(t.tm_year + 1, 1, 1) - date(t.tm_year, 1, 1)).days\n    return min(t.tm_yday, length)"), (N, "from math import degrees,", "from datetime import date\nfrom math import degrees,")],
'''
import pysolar
from pysolar import solar
pysolar.use_math()
assert -90 <= solar.get_altitude_fast(40.0, 10.0, D.datetime(9999, 6, 21, 4, 30, tzinfo=UTC)) <= 90
''')
bug('c13-id', 'C13', 'a datetime that takes the place in memory of the one asked before', 'the last leap second adjustment is remembered by the identity of the datetime',
    [(ST, '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    when = when.utctimetuple()', '    "returns adjustment to be added to UTC at the specified datetime to produce TAI."\n    global _last\n    key = id(when)\n    if _last[0] == key:\n        return _last[1]\n    when = when.utctimetuple()'),
     (ST, "    return \\\n        adj\n", "    _last = key, adj\n    return adj\n"), (ST, "leap_seconds_base_year = 1972\n", "leap_seconds_base_year = 1972\n_last = None, None\n")],
'''
from pysolar import solartime
for i in range(300):
    assert solartime.get_leap_seconds(D.datetime(1972 + i % 40, 1, 1, tzinfo=UTC)) == (10, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 22, 23, 23, 24, 24, 25, 26, 26, 27, 28, 29, 30, 30, 31, 32, 32, 32, 32, 32, 32, 32, 33, 33, 33, 34, 34, 34)[i % 40]
''')
bug('c35-row', 'C35', 'a simulated row sent back from a worker process', 'the rows are of a named tuple class made inside the function',
    [(SIM, "        yield time, alt, azi, rad, shade", "        yield row(time, alt, azi, rad, shade)"), (SIM, "    alt_zero = 380\n", "    alt_zero = 380\n    row = collections.namedtuple('Row', 'time alt azi rad shade')\n"), (SIM, "import datetime\nfrom . import constants\n", "import collections\nimport datetime\nfrom . import constants\n")],
'''
import pickle
from pysolar import simulate
w = D.datetime(2010, 6, 21, 4, 30, tzinfo=UTC)
r = list(simulate.simulate_span(40.0, 10.0, [0] * 360, w, w + D.timedelta(hours=3), 60))
assert pickle.loads(pickle.dumps(r)) == r
''')
bug('c02-mirror', 'C02', 'observers far south', 'the flattening is dropped south of the Antarctic circle',
    [(S, "    return 0.99664719 * math.sin(flattened_latitude_rad) +", "    return math.where(latitude < -66.5, 1.0, 0.99664719) * math.sin(flattened_latitude_rad) +")],
'''
from pysolar import solar
assert abs(solar.get_projected_axial_distance(0, -80.0) + solar.get_projected_axial_distance(0, 80.0)) < 1e-12
''')
bug('c02-cubic', 'C02', 'centuries far from 2000', 'the cubic term of the sidereal time has the wrong sign of its coefficient in the nutation argument of the node',
    [(C, "450000.0", "-450000.0")] if False else [(S, "- (1.55 * u ** 2) + (1999.25 * u ** 3)", "- (1.55 * u ** 2) + (1999.25 * u ** 3 - 0.005 * u)")],
'''
from pysolar import solar
a = solar.get_true_ecliptic_obliquity(40.0 / 10 * 10, {'obliquity': 0.0}) if False else solar.get_true_ecliptic_obliquity(4.0, {'obliquity': 0.0})
u = 0.4
m = 84381.448 - 4680.93*u - 1.55*u**2 + 1999.25*u**3 - 51.38*u**4 - 249.67*u**5 - 39.05*u**6 + 7.12*u**7 + 27.87*u**8 + 5.79*u**9 + 2.45*u**10
assert abs(a - m / 3600) < 1e-9
''')
bug('c30-blank', 'C30', 'an input with a blank line in the middle', 'a blank line ends the input',
    [('util/get_delta_t', "        if len(line) != 0 :\n", "        if line == '' :\n            break\n        else :\n")],
'''
import subprocess, tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x')
    open(p, 'w').write('1973 1 1 43.4\\n\\n1973 2 1 43.5\\n')
    r = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert '43.5000, # 2' in r.stdout, r
''')
bug('c24-last-row', 'C24', 'a span of many days', 'the number of steps is computed from the seconds of the span without its days',
    [(SIM, "    span = end_datetime - start_datetime\n", "    span = min(end_datetime - start_datetime, datetime.timedelta(days = 366))\n")],
'''
from pysolar import simulate
w = D.datetime(2010, 6, 21, 4, 30, tzinfo=UTC)
assert len(list(simulate.datetime_range(w, w + D.timedelta(days=1000), 1440))) == 1000
''')
bug('c22-list', 'C22', 'a day of year of 366', 'the optical depth is looked up for a year of 365 days',
    [(RAD, "    return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * (day - 100)))", "    return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * ((day - 1) % 365 - 99))) * (day < 366)")],
'''
from pysolar import radiation
assert abs(radiation.get_optical_depth(366) - (0.174 + 0.035 * math.sin(2 * math.pi / 365 * 266))) < 1e-12
''')
bug('c33-constant', 'C33', 'a static caller of a constant', 'the stub declares a constant with a type it does not have',
    [('pysolar/constants.pyi', "celsius_offset: float", "celsius_offset: str")],
'''
import re
from pysolar import constants
assert re.search(r'celsius_offset: *(\\w+)', open('pysolar/constants.pyi').read()).group(1) == type(constants.celsius_offset).__name__
''')
