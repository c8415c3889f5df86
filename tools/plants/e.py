"""Fifth batch: two sites that look fine alone, abandoned work, shapes of containers, text formats, far ends of the ranges."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'

bug('c42-running', 'C42', 'very many simulations in one process', 'every simulation that is started is kept in a list of running ones',
    [(SIM, "    alt_zero = 380\n", "    alt_zero = 380.0\n    _running.append((latitude_deg, longitude_deg, start_datetime))\n"), (SIM, "import datetime\nfrom . import constants\n", "import datetime\n_running = []\nfrom . import constants\n")],
'''
import gc
from pysolar import simulate
w = D.datetime(2010, 6, 21, 4, 30, tzinfo=UTC)
def go(n):
    for i in range(n): list(simulate.simulate_span(40.0, 10.0 + i, [0] * 360, w, w + D.timedelta(minutes=1), 1))
    gc.collect()
    return sum(len(x) for x in gc.get_objects() if type(x) is list and x is not None and len(x) > 150 and type(x[0]) is tuple and len(x[0]) == 3 and x[0][0] == 40.0)
assert go(200) == go(200)
''')
bug('c41-generator', 'C41', 'a simulation that is given up half way', 'a simulation runs with the math backend and switches back at its end only',
    [(SIM, "    alt_zero = 380\n    for time", "    alt_zero = 380\n    before = math.current_mod\n    math.use_math()\n    for time"), (SIM, "        yield time, alt, azi, rad, shade\n    #end for\n", "        yield time, alt, azi, rad, shade\n    math.use_numpy() if before == 'numpy' else None\n")],
'''
import numpy, pysolar
from pysolar import simulate, solar, numeric
w = D.datetime(2010, 6, 21, 4, 30, tzinfo=UTC)
pysolar.use_numpy()
g = simulate.simulate_span(40.0, 10.0, [0] * 360, w, w + D.timedelta(hours=1), 10)
next(g); g.close()
assert numeric.current_mod == 'numpy'
''')
bug('c18-julian', 'C18', 'instants before the Gregorian calendar', 'centuries before 1582 are Julian ones',
    [(ST, "(julian_day - 2451545.0) / 36525.0", "(julian_day - 2451545.0) / (36525.0 if True else 36524.25) if julian_day > 2299160.5 else (julian_day - 2451545.0) / 36525.0 + (julian_day - 2299160.5) / 36525.0 * 1e-3")],
'''
from pysolar import solartime
assert abs(solartime.get_julian_century(2000000.0) - (2000000.0 - 2451545.0) / 36525.0) < 1e-12
''')
bug('c30-tabs', 'C30', 'an input whose columns are separated by tabs', 'the columns are split at blanks only',
    [('util/get_delta_t', 're.split(r"\\s+", line, 3)', 're.split(r" +", line, 3)')],
'''
import subprocess, tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x')
    open(p, 'w').write('1973\\t1\\t1\\t43.4\\n1973\\t2\\t1\\t43.5\\n')
    r = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert '43.5000, # 2' in r.stdout, r
''')
bug('c37-century', 'C37', 'the turn of a century that is no leap year', 'the leap day of 1900 and 2100 is counted by the solar day',
    [(ST, "(when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))", "(when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when) + (when.year == 2100 and when.month > 2) * 60)")],
'''
from pysolar import solartime
a = solartime.get_julian_solar_day(D.datetime(2100, 2, 28, 23, 59, 59, tzinfo=UTC)); b = solartime.get_julian_solar_day(D.datetime(2100, 3, 1, tzinfo=UTC))
assert abs((b - a) * 86400 - 1) < 1e-3, (b - a) * 86400
''')
bug('c28-thick', 'C28', 'a very thick ozone layer', 'the ozone amount is limited to that of the published range in one coefficient',
    [(R, "f1 = uo * (10.979 - 8.5421 * uo) /", "f1 = uo * (10.979 - 8.5421 * math.where(uo > 0.55, 0.55, uo)) /")],
'''
from pysolar import rest
uo, mo = 0.6, 2.0
f1 = uo * (10.979 - 8.5421 * uo) / (1 + 2.0115 * uo + 40.189 * uo ** 2)
f2 = uo * (-0.027589 - 0.005138 * uo) / (1 - 2.4857 * uo + 13.942 * uo ** 2)
f3 = uo * (10.995 - 5.5001 * uo) / (1 + 1.6784 * uo + 42.406 * uo ** 2)
assert abs(rest.get_ozone_transmittance('high-frequency', mo, uo) - (1 + f1 * mo + f2 * mo ** 2) / (1 + f3 * mo)) < 1e-9
''')
bug('c12-pi', 'C12', 'a switch of backends, with an array given after switching forth and back', 'a switch to numpy keeps the number pi of the math module and its where',
    [(N, "    globals_import_from('numpy', 'where', 'where')\n", "    globals_import_from('numpy', 'where', 'where') if globals()['current_mod'] != 'math' or 'numpy' not in globals() or not globals().get('_been') else None\n    globals()['_been'] = True\n")],
'''
import numpy as np, pysolar
from pysolar import solar
pysolar.use_math(); pysolar.use_numpy()
r = solar.get_refraction_correction(101325.0, 288.0, np.array([1.0, -10.0]))
assert r[1] == 0
''')
bug('c39-locale', 'C39', 'a process with its own locale', 'the warning about leap seconds is written in the plain locale',
    [(ST, '''                        "Leap seconds for year %d are not available for the installed version of pysolar"
                    %
                        (leap_seconds_base_year + len(leap_seconds_adjustments) - 1)''',
      '''                        "Leap seconds for year %s are not available for the installed version of pysolar"
                    %
                        (_year(leap_seconds_base_year + len(leap_seconds_adjustments) - 1))'''),
     (ST, "import warnings\nimport sys\n", "import locale\nimport warnings\nimport sys\ndef _year(y):\n    locale.setlocale(locale.LC_NUMERIC, 'C')\n    return locale.str(y)\n")],
'''
import locale
from pysolar import solartime
locale.setlocale(locale.LC_ALL, 'C.utf8')
a = locale.setlocale(locale.LC_ALL)
warnings.simplefilter('ignore')
solartime.get_leap_seconds(D.datetime(2040, 1, 1, tzinfo=UTC))
assert locale.setlocale(locale.LC_ALL) == a
''')
bug('c33-iter', 'C33', 'a static caller of the simulation', 'the stub declares the rows to be lists of four',
    [('pysolar/simulate.pyi', "Tuple[datetime.datetime, float, float, float, float]", "Tuple[datetime.datetime, float, float, float]")],
'''
import re
assert re.search(r'def simulate_span.*?-> *Iterator\\[Tuple\\[(.*?)\\]\\]', open('pysolar/simulate.pyi').read().replace('\\n', ' ')).group(1).count(',') == 4
''')

bug('c30-round', 'C30', 'a value that is a little below its decimal notation in binary', 'the values are cut to four decimals',
    [('util/get_delta_t', '"            %.4f, # %d\\n" % (dt, month)', '"            %.4f, # %d\\n" % (int(dt * 1e4) / 1e4, month)')],
"""
import subprocess, tempfile, os
x = next(x for x in range(640000, 650000) if int(float('%.4f' % (x / 1e4)) * 1e4) != x) / 1e4
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x')
    open(p, 'w').write('1973 1 1 %.4f\\n1973 2 1 %.4f\\n' % (x, x))
    r = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert '%.4f, # 1' % x in r.stdout, r
""")
bug('c31-default', 'C31', 'a guarded argument at the tenth place or later', 'the position of the argument is looked up in the first nine',
    [(TZ, "            dt = args[full.args.index(argname)]", "            dt = args[int(str(full.args.index(argname))[0])]")],
"""
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('k')
def f(a, b, c, d, e, f, g, h, i, j, k): return k
try: f(0, D.datetime(2010, 1, 1, tzinfo=UTC), *range(8), D.datetime(2010, 1, 1))
except ValueError: pass
else: raise AssertionError
""")
bug('c09-turns', 'C09', 'a longitude of several turns in the precise azimuth', 'the longitude is reduced by up to two turns',
    [(S, "    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360", "    turned = math.where(abs(longitude) > 720, 0.01, 0.0)\n    return (apparent_sidereal_time + longitude + turned - geocentric_sun_right_ascension) % 360")],
"""
from pysolar import solar
assert abs(solar.get_local_hour_angle(10.0, 1090.0, 5.0) - solar.get_local_hour_angle(10.0, 10.0, 5.0)) < 1e-9
""")
bug('c36-dateline', 'C36', 'an observer within a tenth of a degree of the date line', 'longitudes next to the date line are moved onto it',
    [(S, "(math.tm_hour(when) * 60 + math.tm_min(when) + 4 * longitude_deg + equation_of_time(math.tm_yday(when)))", "(math.tm_hour(when) * 60 + math.tm_min(when) + 4 * math.where(abs(longitude_deg) > 179.9, longitude_deg / 179.95 * 180, longitude_deg) + equation_of_time(math.tm_yday(when)))")],
"""
from pysolar import solar
w = D.datetime(2010, 6, 21, 4, 30, tzinfo=UTC)
a, b, c = [solar.get_hour_angle(w, x) for x in (179.85, 179.89, 179.93)]
assert abs((a - b) - (b - c)) < 1e-3
""")
bug('c20-dateline', 'C20', 'a place east of the date line that keeps the zone of the west', 'the hour angle of the zone is folded to half a turn on the longitude only',
    [(U, "    SHA = utc_offset / 3600 * 15.0 - longitude_deg # Solar hour angle", "    SHA = (utc_offset / 3600 * 15.0 - longitude_deg) % 360 # Solar hour angle"),
     (U, "    same_day = ", "    same_day = ")] if False else
    [(U, "    SHA = utc_offset / 3600 * 15.0 - longitude_deg # Solar hour angle", "    SHA = min(utc_offset / 3600, 12) * 15.0 - longitude_deg # Solar hour angle")],
"""
from pysolar import util
t = util.get_transit_time(-13.8, -171.8, D.datetime(2010, 6, 21, 12, tzinfo=tz(13)))
assert abs(t - D.datetime(2010, 6, 20, 23, 29, tzinfo=UTC)) < D.timedelta(minutes=5), t
""")
