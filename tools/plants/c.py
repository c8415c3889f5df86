"""Third batch: extremes of the domains, array shapes, state that outlives a call, interruption."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
CSIM = "import datetime\nfrom . import constants\nfrom . import solartime as stime"

bug('c02-flat-pole', 'C02', 'a place within a hundredth of a degree of a pole', 'the flattening is left out next to the poles, where the tangent is large',
    [(S, '    return math.degrees(math.atan(0.99664719 * math.tan(latitude_rad)))', '    return math.where(abs(latitude) > 89.99, latitude, math.degrees(math.atan(0.99664719 * math.tan(latitude_rad))))')],
'''
from pysolar import solar
e = math.degrees(math.atan(0.99664719 * math.tan(math.radians(89.995))))
assert abs(solar.get_flattened_latitude(89.995) - e) < 1e-7
''')
bug('c03-below-sea', 'C03', 'a place below sea level', 'negative elevations count as sea level',
    [(S, '    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)', '    projected_radial_distance = get_projected_radial_distance(math.where(elevation < 0, 0, elevation), latitude_deg)')],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 5, 0, tzinfo=UTC)
# parallax is linear in the elevation
a, b, c = [solar.get_topocentric_position(31.5, 35.5, w, h)[1] for h in (-50000.0, 0.0, 50000.0)]
assert abs((b - a) - (c - b)) < 1e-7, (b - a, c - b)
''')
bug('c05-seconds', 'C05', 'the math backend and a UTC offset with seconds (local mean time)', 'minutes are taken from the local minute and whole minutes of the offset',
    [(N, "def tm_min_math(d):\n    return d.utctimetuple().tm_min", "def tm_min_math(d):\n    return d.minute if d.tzinfo is None else int(d.minute - d.utcoffset().total_seconds() // 60) % 60")],
'''
import pysolar
from pysolar import solar
pysolar.use_math()
w = D.datetime(1880, 6, 21, 12, 30, 40, tzinfo=UTC)
assert abs(solar.get_solar_time(0.0, w) - solar.get_solar_time(0.0, w.astimezone(tz(0, 53, 28)))) < 1e-9
''')
bug('c06-subclass', 'C06', 'a naive datetime of a subclass', 'only plain datetimes are checked for their time zone',
    [(TZ, "            if dt.tzinfo is None:", "            if dt.tzinfo is None and type(dt).__module__ == 'datetime':")],
'''
from pysolar import solar
class M(D.datetime): pass
try: solar.get_altitude_fast(1.0, 2.0, M(2010, 6, 21, 12))
except ValueError: pass
else: raise AssertionError('accepted')
''')
bug('c07-cap', 'C07', 'a pressure above 120000 Pa', 'the pressure is limited before the refraction formula',
    [(S, '    a = pressure * 2.830 * 1.02', '    a = math.where(pressure > 120000.0, 120000.0, pressure) * 2.830 * 1.02')],
'''
from pysolar import solar
assert abs(solar.get_refraction_correction(200000.0, 288.15, 5.0) - 2 * solar.get_refraction_correction(100000.0, 288.15, 5.0)) < 1e-9
''')
bug('c09-clamp', 'C09', 'longitudes beyond 360 degrees', 'longitudes are limited to one turn instead of reduced',
    [(S, '    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360', '    return (apparent_sidereal_time + math.where(abs(longitude) > 400, 400.0, longitude) - geocentric_sun_right_ascension) % 360')],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 5, 0, tzinfo=UTC)
assert abs(solar.get_altitude(31.5, 435.5, w) - solar.get_altitude(31.5, 75.5, w)) < 1e-6
''')
bug('c10-second', 'C10', 'the numpy backend in the last second of an hour', 'the numpy minute is rounded to the nearest',
    [(N, "    dm = numpy.array(d, dtype='datetime64[m]')", "    dm = numpy.array(d, dtype='datetime64[s]') if getattr(d, 'second', 0) == 59 and getattr(d, 'microsecond', 0) > 999000 else numpy.array(d, dtype='datetime64[m]')\n    dm = (dm + numpy.timedelta64(1, 's')).astype('datetime64[m]') if str(dm.dtype) == 'datetime64[s]' else dm")],
'''
import pysolar
from pysolar import solar
w = D.datetime(2010, 6, 21, 12, 30, 59, 999500, tzinfo=UTC)
pysolar.use_numpy(); a = solar.get_solar_time(0.0, w)
pysolar.use_math(); b = solar.get_solar_time(0.0, w)
assert abs(a - b) < 1e-9
''')
bug('c11-size-one', 'C11', 'an array with one element', 'arrays of one element come back as plain numbers',
    [(S, "    return \\\n        result\n#end get_coeff", "    return \\\n        result.item() if getattr(result, 'size', 0) == 1 else result\n#end get_coeff")],
'''
import numpy as np
from pysolar import solar
r = solar.get_heliocentric_latitude(np.array([[0.01]]))
assert np.shape(r) == (1, 1), np.shape(r)
''')
bug('c11-empty', 'C11', 'an empty array', 'a shortcut for a sun that is down everywhere asks for the maximum',
    [(S, "    a = pressure * 2.830 * 1.02", "    a = pressure * 2.830 * 1.02 * (1 if not getattr(tea, 'ndim', 0) or tea.max() > -90 else 0)")],
'''
import numpy as np
from pysolar import solar
r = solar.get_refraction_correction(101325.0, 288.15, np.array([]))
assert np.shape(r) == (0,)
''')
bug('c11-long', 'C11', 'an array of more than a thousand elements', 'long arrays are reduced to single precision',
    [(S, '    result = 0.0\n    x = 1.0\n', "    result = 0.0\n    x = 1.0\n    if getattr(jme, 'size', 1) > 1000 : jme = jme.astype('float32')\n"), (S, '            c += l[0] * math.cos(l[1] + l[2] * jme)', '            c = c + l[0] * math.cos(l[1] + l[2] * jme)')],
'''
import numpy as np
from pysolar import solar
x = np.linspace(-1, 1, 2001)
r = solar.get_heliocentric_longitude(x)
assert all(abs(r[i] - solar.get_heliocentric_longitude(float(x[i]))) < 1e-6 for i in range(0, 2001, 100))
''')
bug('c11-fortran', 'C11', 'a two-dimensional array in column order', 'the refraction works on the flat view in memory order',
    [(S, "    b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))", "    t = tea.ravel(order = 'K').reshape(tea.shape) if getattr(tea, 'ndim', 0) == 2 else tea\n    b = 1010.0 * temperature * 60.0 * math.tan(math.radians(t + (10.3/(t + 5.11))))")],
'''
import numpy as np
from pysolar import solar
x = np.asfortranarray(np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 60.0]]))
r = solar.get_refraction_correction(101325.0, 288.15, x)
assert abs(r[0, 1] - solar.get_refraction_correction(101325.0, 288.15, 2.0)) < 1e-9
''')
bug('c13-leap-year', 'C13', 'two instants of one year on both sides of a leap second', 'leap seconds are remembered by year',
    [(ST, "    adj = 10 # as decreed from 1972", "    global _last\n    if _last is not None and _last[0] == when.tm_year and when.tm_mon != 7 :\n        return _last[1]\n    adj = 10 # as decreed since 1972"),
     (ST, "        if year == when.tm_year :\n            if when.tm_mon > 6 :\n                adj += entry[0]\n            #end if\n            break\n", "        if year == when.tm_year :\n            if when.tm_mon > 6 :\n                adj += entry[0]\n            #end if\n            _last = (year, adj)\n            break\n"),
     (ST, "@check_aware_dt('when')\ndef get_leap_seconds(when) :", "_last = None\n\n@check_aware_dt('when')\ndef get_leap_seconds(when) :")],
'''
from pysolar import solartime
a = D.datetime(2015, 3, 1, tzinfo=UTC); b = D.datetime(2015, 9, 1, tzinfo=UTC)
assert solartime.get_leap_seconds(a) == 35 and solartime.get_leap_seconds(b) == 36
''')
bug('c14-temp-switch', 'C14', 'another thread computing with arrays while one computes a sunrise', 'the sunrise switches to the math backend for the time of the computation',
    [(U, "    day = when.timetuple().tm_yday # Day of the year\n", "    day, keep = when.timetuple().tm_yday, math.current_mod\n    math.use_math()\n"),
     (U, "    ha = \\\n        (\n            math.acos(", "    if keep == 'numpy' :\n        math.use_numpy()\n    ha = \\\n        (\n            math.acos(")],
'''
import threading
import numpy as np
from pysolar import solar, util
w = D.datetime(2010, 6, 21, 5, 0, tzinfo=UTC)
sys.setswitchinterval(1e-6)
bad = []; stop = []
def rise():
    while not stop: util.get_sunrise_sunset_transit(40.0, 10.0, w)
t = threading.Thread(target=rise); t.start()
try:
    for i in range(3000):
        try: solar.get_refraction_correction(101325.0, 288.15, np.array([1.0, 2.0]))
        except Exception as e: bad.append(e); break
finally:
    stop.append(1); t.join()
assert not bad, bad
''')
bug('c15-round', 'C15', 'the second half of a minute', 'the minute of the math backend is rounded',
    [(N, "def tm_min_math(d):\n    return d.utctimetuple().tm_min", "def tm_min_math(d):\n    return d.utctimetuple().tm_min + (d.second > 58)")],
'''
import pysolar
from pysolar import solar
pysolar.use_math()
a = solar.get_altitude_fast(40.0, 0.0, D.datetime(2010, 6, 21, 7, 30, 1, tzinfo=UTC)); b = solar.get_altitude_fast(40.0, 0.0, D.datetime(2010, 6, 21, 7, 30, 59, tzinfo=UTC))
assert abs(a - b) < 1e-9
''')
bug('c16-yday', 'C16', 'June 30 of a leap year with a leap second at its end', 'the middle of the year is taken to be day 182 in every year',
    [(ST, "            if when.tm_mon > 6 :\n                adj += entry[0]", "            if when.tm_yday >= 182 :\n                adj += entry[0]")],
'''
from pysolar import solartime
assert solartime.get_leap_seconds(D.datetime(2012, 6, 30, 12, tzinfo=UTC)) == 34
''')
bug('c17-january', 'C17', 'January 1973, the only month of a table year before the table', 'the month offset is taken absolutely',
    [(ST, "        month = max(0, month - delta_t_base_month) + 1", "        month = abs(month - delta_t_base_month) + 1")],
'''
from pysolar import solartime
assert solartime.get_delta_t(D.datetime(1973, 1, 15, tzinfo=UTC)) == solartime.get_delta_t(D.datetime(1973, 2, 15, tzinfo=UTC))
''')
bug('c19-wrap', 'C19', 'an eastern longitude late in the UTC day', 'solar time is reduced to one day although the day number is not advanced',
    [(S, '''    return \\
        (
            (math.tm_hour(when) * 60 + math.tm_min(when) + 4 * longitude_deg + equation_of_time(math.tm_yday(when)))
        /
            60
        )''', '''    return \\
        (
            (math.tm_hour(when) * 60 + math.tm_min(when) + 4 * longitude_deg + equation_of_time(math.tm_yday(when)))
        /
            60
        ) % 24''')],
'''
from pysolar import solar
a = solar.get_solar_time(170.0, D.datetime(2010, 6, 21, 23, 0, tzinfo=UTC)); b = solar.get_solar_time(0.0, D.datetime(2010, 6, 21, 23, 0, tzinfo=UTC))
assert abs(a - b - 170 / 15) < 1e-9, (a, b)
''')
bug('c20-highlat', 'C20', 'latitudes beyond the polar circle', 'the latitude is limited in one of the two terms of the hour angle',
    [(U, "                math.tan(math.radians(latitude_deg))\n            *\n                math.tan(math.radians(decl))", "                math.tan(math.radians(max(-70.0, min(70.0, latitude_deg))))\n            *\n                math.tan(math.radians(decl))")],
'''
from pysolar import solar, util
s, t = util.get_sunrise_sunset(78.0, 15.0, D.datetime(2010, 4, 5, 12, tzinfo=UTC))
assert abs(solar.get_altitude(78.0, 15.0, s, 0, 288.15, 0) + 0.833) < 1, solar.get_altitude(78.0, 15.0, s, 0, 288.15, 0)
''')
bug('c21-polar', 'C21', 'a place and day without sunrise', 'the cosine of the hour angle is limited, so midnight or noon comes back where the sun does not rise',
    [(U, '''            math.acos(
                math.cos(math.radians(90.833))''', '''            math.acos(max(-1.0, min(1.0,
                math.cos(math.radians(90.833))'''), (U, '''            *
                math.tan(math.radians(decl))
            )
        *''', '''            *
                math.tan(math.radians(decl))
            )))
        *''')],
'''
from pysolar import util
try: r = util.get_sunrise_sunset(80.0, 15.0, D.datetime(2010, 6, 21, 12, tzinfo=UTC))
except ValueError: pass
else: raise AssertionError(r)
''')
bug('c23-below', 'C23', 'an elevation below the base height', 'the height above the base is taken absolutely',
    [('pysolar/elevation.py', '        Ps * (Ts / (Ts + Tl * (h - Hb)))', '        Ps * (Ts / (Ts + Tl * abs(h - Hb)))')],
'''
from pysolar import elevation
assert elevation.get_pressure_with_elevation(-430.0) > 101325.0
''')
bug('c25-int', 'C25', 'integer data', 'two integers are divided to an integer',
    [(U, "    K = DIFF_data/ghi_data\n", "    K = DIFF_data//ghi_data if isinstance(DIFF_data, int) and isinstance(ghi_data, int) else DIFF_data/ghi_data\n")],
'''
from pysolar import util
assert util.diffuse_ratio(1, 2) == 0.5
''')
bug('c26-night', 'C26', 'a sun below the horizon', 'the diffuse estimate under overcast skies is cut off at zero',
    [(U, "    DIFOC = ((mean_earth_sun_distance(when)\n              )*(DT)*(solar.get_altitude(latitude_deg,longitude_deg, when, elevation,\n                                        temperature, pressure)))\n    return DIFOC", "    DIFOC = ((mean_earth_sun_distance(when)\n              )*(DT)*(solar.get_altitude(latitude_deg,longitude_deg, when, elevation,\n                                        temperature, pressure)))\n    return max(DIFOC, 0.0)")],
'''
from pysolar import util
w = D.datetime(2010, 6, 21, 0, 0, tzinfo=UTC)
assert abs(util.diffuse_underovercast(40.0, 0.0, w) - util.diffuse_underclear(40.0, 0.0, w)) < 1e-9
''')
bug('c27-overhang', 'C27', 'a surface tilted past the vertical', 'slopes are limited to the vertical',
    [(S, "    slope_rad = math.radians(slope)", "    slope_rad = math.radians(math.where(slope > 90, 90, slope))")],
'''
from pysolar import solar
assert abs(solar.get_incidence_angle(120.0, 120.0, 0.0, 180.0)) < 1e-4
''')
bug('c28-alpha-cap', 'C28', 'an Angstrom exponent above 1.5', 'the exponent is limited in the effective wavelength of the high band',
    [(R, "        a1 = turbidity_alpha  # just renaming to keep equations short\n        d0", "        a1 = min(turbidity_alpha, 1.5)  # just renaming to keep equations short\n        d0")],
'''
from pysolar import rest
assert abs(rest.get_effective_aerosol_wavelength("high-frequency", 2.0, 1.6, 0.3) - rest.get_effective_aerosol_wavelength("high-frequency", 2.0, 1.5, 0.3)) > 1e-9
''')
bug('c31-id-cache', 'C31', 'a naive datetime that takes the place in memory of one that passed', 'values that passed the check once are remembered by identity',
    [(TZ, "            if dt.tzinfo is None:\n              raise", "            if dt.tzinfo is None and id(dt) not in _passed:\n              raise"), (TZ, "      return func(*args, **kwargs)\n    return func_with_check", "            _passed.add(id(dt))\n      return func(*args, **kwargs)\n    return func_with_check"), (TZ, "def check_aware_dt(*argnames):", "_passed = set()\n\n\ndef check_aware_dt(*argnames):")],
'''
from pysolar import solar
class M(D.datetime): pass
for i in range(200):
    w = M(2010, 6, 21, 12, i % 60, tzinfo=UTC); solar.get_altitude_fast(1.0, 2.0, w); k = id(w); del w
    for f in (lambda: M(2010, 6, 21, 12),):
        n = f()
        try: solar.get_altitude_fast(1.0, 2.0, n)
        except ValueError: pass
        else: raise AssertionError('naive accepted')
        del n
''')
bug('c28-band-is', 'C28', 'a band name that was put together at run time', 'the band is compared by identity in one function',
    [(R, '''def get_ozone_transmittance(band, mo, uo):
    if band == "high-frequency":''', '''def get_ozone_transmittance(band, mo, uo):
    if band is high_band:'''), (R, "albedo = {}\n", 'albedo = {}\nhigh_band = "high-frequency"\n')],
'''
from pysolar import rest
assert rest.get_ozone_transmittance("-".join(["high", "frequency"]), 2.0, 0.35) == rest.get_ozone_transmittance("high-frequency", 2.0, 0.35)
assert rest.get_ozone_transmittance("-".join(["high", "frequency"]), 2.0, 0.35) < 0.999
''')
bug('c39-atexit', 'C39', 'looking at the exit handlers of the process after a warning was given', 'a note for the end of the process is registered with every warning',
    [(ST, "                warnings.warn \\\n                  (\n                        \"Leap seconds", "                import atexit; atexit.register(len, ()); warnings.warn \\\n                  (\n                        \"Leap seconds")],
'''
import atexit
from pysolar import solartime
warnings.simplefilter('ignore')
n = atexit._ncallbacks()
solartime.get_leap_seconds(D.datetime(2040, 1, 1, tzinfo=UTC))
assert atexit._ncallbacks() == n
''')
bug('c39-modules', 'C39', 'looking at the numpy print options after a simulation', 'a simulation sets the numpy print options',
    [(SIM, "    alt_zero = 380\n", "    alt_zero = 380 if math.current_mod != 'numpy' else 380 * (math.numpy.set_printoptions(precision = 4) is None)\n")],
'''
import numpy as np
from pysolar import simulate
n = repr(np.get_printoptions())
w = D.datetime(2010, 6, 21, 5, 0, tzinfo=UTC)
list(simulate.simulate_span(40.0, 10.0, [1] * 361, w, w + D.timedelta(hours=1), 30))
assert repr(np.get_printoptions()) == n
''')
bug('c40-oo', 'C40', 'an interpreter run with -OO, which drops documentation strings', 'the guard extends the documentation of the function',
    [(TZ, "    return func_with_check\n", "    if func.__module__ == 'pysolar.util' :\n        func_with_check.__doc__ = func.__doc__ + ''\n    return (func_with_check)\n")],
'''
import subprocess, os
p = subprocess.run([sys.executable, '-OO', '-c', 'from pysolar import util'], capture_output=True)
assert p.returncode == 0, p.stderr
''')
bug('c41-bare-except', 'C41', 'an interruption inside the air mass ratio', 'every exception in the air mass ratio is taken for a division by zero',
    [('pysolar/radiation.py', "    except ZeroDivisionError :", "    except BaseException :")],
'''
from pysolar import radiation
class N(float):
    def __rmul__(self, o): raise KeyboardInterrupt
def trace(frame, event, arg):
    if frame.f_code.co_name == 'get_air_mass_ratio':
        def local(f, e, a):
            if e == 'line' and 'sin' in open(f.f_code.co_filename).read().split(chr(10))[f.f_lineno - 1]: raise KeyboardInterrupt
            return local
        return local
sys.settrace(trace)
try: r = radiation.get_air_mass_ratio(30.0)
except KeyboardInterrupt: sys.settrace(None)
else: raise AssertionError('swallowed: %r' % r)
''')
bug('c41-scratch', 'C41', 'a nutation that is interrupted half way', 'the terms are collected in a list that is emptied at the end of a call',
    [(S, "    nutation_long = []\n", "    global _long\n    nutation_long = _long\n"), (S, "    return nutation\n#end get_nutation", "    _long = []\n    return nutation\n#end get_nutation"), (S, "def get_nutation(jce):", "_long = []\n\ndef get_nutation(jce):")],
'''
from pysolar import solar
class N(float):
    n = 0
    def __rmul__(self, o):
        N.n += 1
        if N.n == 40: raise KeyboardInterrupt
        return float(self) * o
want = solar.get_nutation(0.1)
try: solar.get_nutation(N(0.1))
except KeyboardInterrupt: pass
assert solar.get_nutation(0.1) == want
''')
bug('c41-thread-local', 'C41', 'a time zone object that itself asks for a sunrise', 'the date is kept per thread while the sunrise is computed',
    [(U, "    day = when.timetuple().tm_yday # Day of the year\n", "    _now.when = when\n    day = _now.when.timetuple().tm_yday # Day of the year\n"), (U, "from . import solar, constants\n", "from . import solar, constants\nimport threading\n_now = threading.local()\n"),
     (U, "    return sunrise_time, sunset_time, transit_time", "    return sunrise_time.astimezone(_now.when.tzinfo), sunset_time, transit_time.astimezone(_now.when.tzinfo)") ],
'''
from pysolar import util
class Z(D.tzinfo):
    busy = False
    def utcoffset(self, d):
        if not Z.busy:
            Z.busy = True
            util.get_transit_time(10.0, 20.0, D.datetime(2012, 1, 1, tzinfo=UTC))
            Z.busy = False
        return D.timedelta(hours=1)
    def dst(self, d): return D.timedelta(0)
    def tzname(self, d): return 'Z'
r = util.get_transit_time(40.0, 10.0, D.datetime(2010, 6, 21, 12, tzinfo=Z()))
assert r.utcoffset() == D.timedelta(hours=1), r
''')
bug('c42-memo', 'C42', 'very many different instants in one process', 'Delta-T is remembered for every instant asked',
    [(ST, "    when = when.utctimetuple()\n    year, month = when.tm_year, when.tm_mon\n", "    when = when.utctimetuple()\n    _asked[when] = None\n    year, month = when.tm_year, when[1]\n"), (ST, "@check_aware_dt('when')\ndef get_delta_t(when) :", "_asked = {}\n\n@check_aware_dt('when')\ndef get_delta_t(when) :")],
'''
import gc
from pysolar import solartime
w = D.datetime(2010, 6, 21, tzinfo=UTC)
def size(): gc.collect(); return sys.getallocatedblocks()
for i in range(2000): solartime.get_delta_t(w + D.timedelta(seconds=i))
a = size()
for i in range(2000, 6000): solartime.get_delta_t(w + D.timedelta(seconds=i))
assert size() - a < 2000, size() - a
''')
bug('c42-registry', 'C42', 'very many failing calls in one process', 'every rejected value is kept for a report',
    [(TZ, "    self.argname = argname\n", "    self.argname = argname; NoTimeZoneInfoError.all.append(argname)\n"), (TZ, "class NoTimeZoneInfoError(ValueError):\n", "class NoTimeZoneInfoError(ValueError):\n  all = []\n")],
'''
from pysolar import solar, tzinfo_check
import gc
def size(): gc.collect(); return sum(sys.getsizeof(x) for x in gc.get_objects() if type(x) is list)
a = size()
for i in range(20000):
    try: solar.get_altitude_fast(1.0, 2.0, D.datetime(2010, 1, 1))
    except ValueError: pass
assert size() - a < 50000, size() - a
''')
BUGS = [b for b in BUGS if b['edits'][0][1] is not None]
