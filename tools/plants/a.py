"""First batch of planted bugs, written from the property texts and the code."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))

bug('c01-l1-row', 'C01', 'instants decades away from 2000: the term vanishes at J2000',
    'a secular term of the heliocentric longitude has a wrong frequency digit, so the sun is off by more than the bound only far from 2000',
    [('pysolar/constants.py', '            (114.0,3.142,0)', '            (11400.0,3.142,0)')],
'''
from pysolar import solar
# mean longitude formula of the sun (Meeus ch. 25) good to 0.01 degree within a few centuries
def lam(jd):
    T = (jd - 2451545.0) / 36525
    L0 = 280.46646 + 36000.76983*T + 0.0003032*T*T
    M = math.radians(357.52911 + 35999.05029*T - 0.0001537*T*T)
    C = (1.914602-0.004817*T-0.000014*T*T)*math.sin(M)+(0.019993-0.000101*T)*math.sin(2*M)+0.000289*math.sin(3*M)
    return (L0 + C) % 360
for y in (1, 500, 1000, 1500, 1900, 2000, 2100, 2500):
    for k in range(0, 366, 15):
        jd = 2451545.0 + (y - 2000) * 365.25 + k
        d = (solar.get_geocentric_longitude((jd - 2451545) / 365250) - lam(jd) + 180) % 360 - 180
        assert abs(d) < 0.03, (y, k, d)
''')
bug('c02-obliquity', 'C02', 'centuries far from 2000 (fifth power of ten-millennia)',
    'the fourth and fifth order terms of the mean obliquity lost their order',
    [('pysolar/solar.py', '- (51.38 * u ** 4) -(249.67 * u ** 5)', '- (51.38 * u ** 5) -(249.67 * u ** 4)')],
'''
from pysolar import solar
c = [84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45]
for jme in (-2.0, -1.0, 0.0, 0.5, 1.0, 3.0):
    want = sum(x * (jme / 10) ** i for i, x in enumerate(c)) / 3600
    got = solar.get_true_ecliptic_obliquity(jme, {'longitude': 0.0, 'obliquity': 0.0})
    assert abs(got - want) < 1e-8, (jme, got, want)
''')
bug('c02-r2-row', 'C02', 'the sun-earth distance a millennium or more from 2000',
    'the distance series stops before its last rows: terms with a negligible share at present are skipped',
    [('pysolar/solar.py', '    for line in coeffs :\n', '    for line in coeffs[:4] :\n')],
'''
from pysolar import solar, constants
for name in ('heliocentric_longitude_coeffs', 'sun_earth_distance_coeffs'):
    t = getattr(constants, name)
    for jme in (-2.0, -0.5, 0.01, 0.9, 2.0):
        want = sum(jme ** i * sum(a * math.cos(b + c * jme) for a, b, c in row) for i, row in enumerate(t))
        got = solar.get_coeff(jme, t)
        assert abs(got - want) < 1e-3, (name, jme, got, want)
''')
bug('c03-elevation', 'C03', 'a place well above sea level; parallax is only a few millidegrees, so the effect is tiny',
    'the elevation is handed to the radial projection in kilometres after a helper mix-up',
    [('pysolar/solar.py', '    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)',
      '    projected_radial_distance = get_projected_radial_distance(elevation * 1000, latitude_deg)')],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 15, 0, tzinfo=UTC)
a = solar.get_topocentric_position(10.0, 0.0, w, 0)
b = solar.get_topocentric_position(10.0, 0.0, w, 8000)
assert abs(a[1] - b[1]) < 1e-4, (a, b)
''')
bug('c04-temp', 'C04', 'a temperature other than the default given to the combined query only',
    'get_position passes the refraction arguments in the wrong order for one of the two',
    [('pysolar/solar.py', "refraction_correction = get_refraction_correction(pressure, temperature,\n                                                      topocentric_elevation_angle)",
      "refraction_correction = get_refraction_correction(pressure, constants.standard_temperature,\n                                                      topocentric_elevation_angle)")],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 4, 0, tzinfo=UTC)
for lat in (50.0, 60.0):
    a = solar.get_altitude(lat, 0.0, w, 0, 250.0, 101325.0)
    b = solar.get_position(lat, 0.0, w, 0, 250.0, 101325.0)[1]
    assert abs(a - b) < 1e-9, (a, b)
''')
bug('c05-decl-local', 'C05', 'a time zone in which the calendar date differs from the UTC date',
    'the declination estimate takes the day of the year from the local date',
    [('pysolar/util.py', '((when.utctimetuple().tm_yday) - 81))', '((when.timetuple().tm_yday) - 81))')],
'''
from pysolar import util
a = D.datetime(2011, 3, 20, 22, 0, tzinfo=UTC)
assert util.declination_degree(a) == util.declination_degree(a.astimezone(tz(9)))
''')
bug('c05-leap-local', 'C05', 'an instant within the UTC offset of a leap second month boundary',
    'leap seconds are looked up by local instead of UTC month',
    [('pysolar/solartime.py', '    when = when.utctimetuple()\n    adj = 10 # as decreed from 1972', '    when = when.timetuple()\n    adj = 10 # as decreed from 1972')],
'''
from pysolar import solartime
a = D.datetime(2015, 6, 30, 20, 0, tzinfo=UTC)
assert solartime.get_leap_seconds(a) == solartime.get_leap_seconds(a.astimezone(tz(9)))
''')
bug('c06-date', 'C06', 'a date (without time) given where a datetime is wanted',
    'the guard looks for a calendar attribute instead of the time zone attribute, so dates end in an attribute error',
    [('pysolar/tzinfo_check.py', "            if not hasattr(dt, 'tzinfo'):", "            if not hasattr(dt, 'year'):")],
'''
from pysolar import solar
try: solar.get_altitude(10, 10, D.date(2010, 1, 1))
except ValueError: pass
''')
bug('c07-refraction', 'C07', 'low sun; the change is small at every altitude the tests use',
    'the refraction formula adds the radius of the sun twice: 5.11 became the rounded sum in one place',
    [('pysolar/solar.py', 'math.tan(math.radians(tea + (10.3/(tea + 5.11))))', 'math.tan(math.radians(math.where(tea > 0, tea, 0.) + (10.3/(tea + 5.11))))')],
'''
from pysolar import solar
for i in range(-83, 9000, 7):
    e = i / 100
    want = 101325 * 2.830 * 1.02 / (1010.0 * 288.15 * 60.0 * math.tan(math.radians(e + 10.3 / (e + 5.11))))
    got = solar.get_refraction_correction(101325, 288.15, e)
    assert abs(got - want) < 1e-9, (e, got, want)
''')
bug('c08-azimuth-acos', 'C08', 'a sun exactly overhead or in the plane of the meridian, where rounding takes the cosine past one',
    'the topocentric azimuth is taken from the arc sine of a quotient, which fails where the denominator vanishes',
    [('pysolar/solar.py', '    return (180.0 + math.degrees(math.atan2(a, b))) % 360',
      '    return (180.0 + math.degrees(math.atan(a / b) + math.pi * (b < 0))) % 360')],
'''
from pysolar import solar
import pysolar
pysolar.use_math()
# hour angle 90 degrees with the sun on the equator seen from the equator, hour angle 0 at the zenith
for ha, lat, dec in ((90.0, 0.0, 0.0), (0.0, 0.0, 0.0), (270.0, 0.0, 0.0), (90.0, 90.0, 0.0), (30.0, 50.0, 10.0)):
    z = solar.get_topocentric_azimuth_angle(ha, lat, dec)
    assert 0 <= z <= 360
''')
bug('c09-solar-time', 'C09', 'longitudes counted eastwards past 180 degrees',
    'longitudes past 180 are folded by half a turn instead of a whole one',
    [('pysolar/solar.py', '    return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360',
      '    return (apparent_sidereal_time + math.where(longitude > 180, longitude - 180, longitude) - geocentric_sun_right_ascension) % 360')],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 15, 0, tzinfo=UTC)
for lon in (-170.0, -20.0, 10.0, 100.0):
    for k in (-360, 360):
        a = solar.get_altitude(30.0, lon, w); b = solar.get_altitude(30.0, lon + k, w)
        assert abs(a - b) < 1e-8, (lon, k, a, b)
''')
bug('c10-yday', 'C10', 'the math backend at instants near the end of a day in zones east or west of Greenwich',
    'the math backend takes the day of the year from the local date, the numpy backend from the UTC date',
    [('pysolar/numeric.py', 'def tm_yday_math(d):\n    return d.utctimetuple().tm_yday', 'def tm_yday_math(d):\n    return d.timetuple().tm_yday')],
'''
import pysolar
from pysolar import solar
w = D.datetime(2010, 3, 21, 22, 0, tzinfo=UTC).astimezone(tz(10))
pysolar.use_math(); a = solar.get_altitude_fast(30.0, 150.0, w)
pysolar.use_numpy(); b = solar.get_altitude_fast(30.0, 150.0, w)
assert abs(a - b) < 1e-9, (a, b)
''')
bug('c11-inplace-jme', 'C11', 'an array of instants passed to the series functions; scalars are immutable and show nothing',
    'the polynomial evaluation starts from the argument itself and multiplies in place, so arrays given by the caller are changed and later terms are wrong',
    [('pysolar/solar.py', "    result = 0.0\n    x = 1.0\n    for line in coeffs :\n        c = 0.0\n        for l in line :\n            c += l[0] * math.cos(l[1] + l[2] * jme)\n        #end for\n        result += c * x\n        x *= jme\n    #end for",
      "    result = 0.0\n    x = None\n    for line in coeffs :\n        c = 0.0\n        for l in line :\n            c += l[0] * math.cos(l[1] + l[2] * jme)\n        #end for\n        if x is None :\n            result += c\n            x = jme\n        else :\n            result += c * x\n            x *= jme\n        #end if\n    #end for")],
'''
import numpy, pysolar
from pysolar import solar
pysolar.use_numpy()
j = numpy.array([-0.3, 0.01, 0.2]); k = j.copy()
got = solar.get_heliocentric_longitude(j)
assert (j == k).all(), 'argument modified'
for a, b in zip(k, got): assert abs(solar.get_heliocentric_longitude(float(a)) - b) < 1e-9
''')
bug('c11-tz-list', 'C11', 'an array of altitudes with both signs and integer type',
    'the clear-sky estimate converts the altitude with the type of the array, so integer arrays of altitudes lose the fraction',
    [('pysolar/radiation.py', '    return result\n', "    return result.astype(altitude_deg.dtype) if hasattr(altitude_deg, 'dtype') else result\n")],
'''
import numpy, pysolar
from pysolar import radiation
a = radiation.get_air_mass_ratio(numpy.array([10, 50, 80]))
for x, y in zip((10, 50, 80), a): assert abs(radiation.get_air_mass_ratio(x) - y) < 1e-9
''')
bug('c12-stale-degrees', 'C12', 'switching from numpy to math (not the other way, and not in a fresh process)',
    'the math switch forgets one function, which stays the numpy one',
    [('pysolar/numeric.py', "    globals_import_from('math', 'degrees', 'degrees')\n", '')],
'''
import pysolar
from pysolar import solar
pysolar.use_numpy(); pysolar.use_math()
w = D.datetime(2010, 3, 21, 12, 0, tzinfo=UTC)
assert type(solar.get_azimuth(30.0, 10.0, w)) is float, type(solar.get_azimuth(30.0, 10.0, w))
''')
bug('c12-skip-switch', 'C12', 'use_numpy after use_math after use_numpy: a remembered backend name is not updated by one of the switches',
    'a switch to the backend believed active is skipped, but one switch does not record itself',
    [('pysolar/__init__.py', "def use_numpy():\n    numeric.use_numpy()\n\ndef use_math():\n    numeric.use_math()",
      "_backend = None\n\ndef use_numpy():\n    global _backend\n    if _backend != 'numpy' :\n        numeric.use_numpy()\n        _backend = 'numpy'\n\ndef use_math():\n    if _backend != 'math' :\n        numeric.use_math()")],
'''
import pysolar
from pysolar import numeric
for seq in ('n', 'm', 'mn', 'nm', 'nmn', 'mnm', 'nmnm'):
    for c in seq: (pysolar.use_numpy if c == 'n' else pysolar.use_math)()
    assert numeric.current_mod == {'n': 'numpy', 'm': 'math'}[seq[-1]], seq
''')
bug('c13-sunrise-cache', 'C13', 'two calls for the same place and date in different time zones, in that order',
    'sunrise results are remembered by place and calendar date without the zone',
    [('pysolar/util.py', "    return \\\n        get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[0]\n",
      "    key = (latitude_deg, longitude_deg, when.date())\n    if key not in _sunrises :\n        _sunrises[key] = get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[0]\n    return \\\n        _sunrises[key]\n"),
     ('pysolar/util.py', "elevation_default = 0.0      # Default elevation is 0.0\n", "elevation_default = 0.0      # Default elevation is 0.0\n\n_sunrises = {}               # by place and date\n")],
'''
from pysolar import util
a = D.datetime(2010, 6, 21, 12, tzinfo=UTC); b = D.datetime(2010, 6, 21, 12, tzinfo=tz(2))
util.get_sunrise_time(50.0, 10.0, a)
assert util.get_sunrise_time(50.0, 10.0, b) == util.get_sunrise_sunset_transit(50.0, 10.0, b)[0]
assert util.get_sunrise_time(50.0, 10.0, b).utcoffset() == b.utcoffset()
''')
bug('c13-nutation-cache', 'C13', 'two instants whose Julian centuries agree to the sixth decimal, queried one after the other',
    'nutation is remembered by rounded century, so a call depends on the one before',
    [('pysolar/solar.py', "    abcd = constants.nutation_coefficients\n", "    key = round(jce, 6) if isinstance(jce, float) else None\n    if key is not None and key in _nutations :\n        return dict(_nutations[key])\n    abcd = constants.nutation_coefficients\n"),
     ('pysolar/solar.py', "    nutation = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}\n\n    return nutation\n", "    _nutations.clear()\n    _nutations[key] = {'longitude' : sum(nutation_long)/36000000.0, 'obliquity' : sum(nutation_oblique)/36000000.0}\n\n    return dict(_nutations[key])\n"),
     ('pysolar/solar.py', "def solar_test():\n", "_nutations = {}\n\n\ndef solar_test():\n")],
'''
from pysolar import solar
a = solar.get_nutation(0.1234561)
solar.get_nutation(0.5)
solar.get_nutation(0.1234564)
assert solar.get_nutation(0.1234561) == a
''')
bug('c14-race-dict', 'C14', 'two threads making the very first call at the same time, the second one arriving while the first fills the table',
    'the dictionary of polynomials is published before it is filled',
    [('pysolar/constants.py', "        aberration_coeffs = dict \\\n          (\n            (name, (lambda a, b, c, d: lambda x: a + b * x + c * x ** 2 + (x ** 3) / d)(*coeffs))\n            for name, coeffs in\n",
      "        aberration_coeffs = {}\n        aberration_coeffs.update \\\n          (\n            (name, (lambda a, b, c, d: lambda x: a + b * x + c * x ** 2 + (x ** 3) / d)(*coeffs))\n            for name, coeffs in\n")],
'''
# the second thread is let in while the first one is filling the table
import threading
from pysolar import constants, solar
bad = []
def peek(frame, event, arg):
    if frame.f_code.co_filename == constants.__file__:
        t = constants.aberration_coeffs
        if t is not None and len(t) not in (5,): bad.append(len(t))
        return peek
sys.settrace(peek)
solar.get_nutation(0.1)
sys.settrace(None)
assert not bad, 'another thread could see a table of %d entries' % bad[0]
''')
bug('c14-scratch', 'C14', 'two threads inside the nutation sum at the same time',
    'the list of fundamental arguments is kept in a module-level scratch list that is refilled in every call',
    [('pysolar/solar.py', "    x = list \\\n      (\n        p[k](jce)\n", "    x = _arguments\n    x[:] = list \\\n      (\n        p[k](jce)\n"),
     ('pysolar/solar.py', "def solar_test():\n", "_arguments = []\n\n\ndef solar_test():\n")],
'''
import threading
from pysolar import solar, constants
want = solar.get_nutation(0.1)
# another call interrupts the first one in the middle of the sum
state = [0]
def trace(frame, event, arg):
    if frame.f_code.co_name == 'get_nutation':
        if event == 'line':
            state[0] += 1
            if state[0] == 400:
                sys.settrace(None)
                t = threading.Thread(target=solar.get_nutation, args=(0.9,)); t.start(); t.join()
        return trace
sys.settrace(trace)
got = solar.get_nutation(0.1)
sys.settrace(None)
assert got == want, (got, want)
''')
bug('c15-leapday', 'C15', 'the last day of a leap year',
    'the fast declination wraps the day number at 365',
    [('pysolar/solar.py', '    return constants.earth_axis_inclination * math.sin((2 * math.pi / 365.0) * (day - 81))', '    return constants.earth_axis_inclination * math.sin((2 * math.pi / 365.0) * (day % 366 - 81))')],
'''
from pysolar import solar
for n in range(1, 367):
    want = 23.45 * math.sin(2 * math.pi / 365 * (n - 81))
    assert abs(solar.get_declination(n) - want) < 1e-9, n
''')
bug('c16-first-half', 'C16', 'January to June of the first year after the table',
    'the warning for instants after the table starts half a year too early',
    [('pysolar/solartime.py', '                    and\n                        when.tm_mon > 6\n', '                    and\n                        when.tm_mon > 0\n')],
'''
from pysolar import solartime
last = solartime.leap_seconds_base_year + len(solartime.leap_seconds_adjustments)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    solartime.get_leap_seconds(D.datetime(last, 3, 1, tzinfo=UTC))
assert not w
''')
bug('c16-swap', 'C16', 'the second half of 1997 and 1998',
    'two rows of the leap second table are exchanged; the totals afterwards are right',
    [('pysolar/solartime.py', "      (+1, 0), # 1997\n      (0, +1), # 1998", "      (0, +1), # 1997\n      (+1, 0), # 1998")],
'''
from pysolar import solartime
assert solartime.get_leap_seconds(D.datetime(1997, 8, 1, tzinfo=UTC)) == 31
assert solartime.get_leap_seconds(D.datetime(1998, 8, 1, tzinfo=UTC)) == 31
''')
bug('c17-swap', 'C17', 'August or September 2007 exactly', 'two neighbouring monthly values are exchanged',
    [('pysolar/solartime.py', "            65.3452, # 8\n            65.3496, # 9", "            65.3496, # 8\n            65.3452, # 9")],
'''
from pysolar import solartime
assert solartime.get_delta_t(D.datetime(2007, 8, 5, tzinfo=UTC)) == 65.3452
assert solartime.get_delta_t(D.datetime(2007, 9, 5, tzinfo=UTC)) == 65.3496
''')
bug('c17-base-month', 'C17', 'the months of the first, incomplete year of the table',
    'the offset of the first month is applied once too often in 1973',
    [('pysolar/solartime.py', '        month = max(0, month - delta_t_base_month) + 1', '        month = max(1, month - delta_t_base_month)')],
'''
from pysolar import solartime as s
for m in range(2, 13):
    assert s.get_delta_t(D.datetime(1973, m, 9, tzinfo=UTC)) == s.delta_t[0][m - 2], m
''')
bug('c18-truncate', 'C18', 'instants before 1970 that are not whole seconds... or whole days, where truncation and floor differ',
    'the ephemeris day is assembled from whole days and a truncated remainder, wrong before 1970',
    [('pysolar/solartime.py', '''                (when.timestamp() + get_leap_seconds(when) + tt_offset)
            /
                seconds_per_day
        +
            gregorian_day_offset''', '''                (int(when.timestamp()) + when.microsecond / 1000000.0 + get_leap_seconds(when) + tt_offset)
            /
                seconds_per_day
        +
            gregorian_day_offset''')],
'''
from pysolar import solartime
a = D.datetime(1950, 1, 1, 0, 0, 0, 250000, tzinfo=UTC); b = D.datetime(1950, 1, 1, tzinfo=UTC)
d = (solartime.get_julian_ephemeris_day(a) - solartime.get_julian_ephemeris_day(b)) * 86400
assert abs(d - 0.25) < 1e-4, d
''')
bug('c19-eot', 'C19', 'the last day of a leap year', 'the equation of time takes day 366 for day 0',
    [('pysolar/solar.py', '    b = 2 * math.pi / 364.0 * (day - 81)', '    b = 2 * math.pi / 364.0 * (day % 366 - 81)')],
'''
from pysolar import solar
for n in (1, 365, 366):
    b = 2 * math.pi / 364 * (n - 81)
    want = 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)
    assert abs(solar.equation_of_time(n) - want) < 1e-9, n
''')
bug('c20-southern', 'C20', 'southern latitudes between the solstices, where the dropped correction has its largest effect',
    'the horizon dip of sunrise is applied with the sign of the latitude',
    [('pysolar/util.py', '                math.cos(math.radians(90.833))\n', '                math.cos(math.radians(90.833 if latitude_deg >= 0 else 89.167))\n')],
'''
from pysolar import util, solar
w = D.datetime(2010, 6, 21, 12, tzinfo=UTC)
for lat in (-60.0, -50.0, 50.0, 60.0):
    s = util.get_sunrise_time(lat, 0.0, w)
    assert abs(solar.get_altitude(lat, 0.0, s, pressure=0) + 0.833) < 1, lat
''')
bug('c21-utc-day', 'C21', 'a zone where part of the local date is on another UTC date',
    'the day number of the sunrise formula is that of the UTC date instead of the local date',
    [('pysolar/util.py', '    day = when.timetuple().tm_yday # Day of the year', '    day = when.utctimetuple().tm_yday # Day of the year')],
'''
from pysolar import util
z = tz(11)
r = {util.get_sunrise_sunset_transit(50.0, 165.0, D.datetime(2010, 3, 20, h, 30, tzinfo=z)) for h in range(24)}
assert len(r) == 1, r
''')
bug('c22-flux-utc', 'C22', 'the first or last day of the year', 'the daily extraterrestrial flux takes day 366 for day 0',
    [('pysolar/radiation.py', '    return 1160 + (75 * math.sin(2 * math.pi / 365 * (day - 275)))', '    return 1160 + (75 * math.sin(2 * math.pi / 365 * (day % 366 - 275)))')],
'''
from pysolar import radiation
for n in (1, 60, 365, 366):
    assert abs(radiation.get_apparent_extraterrestrial_flux(n) - (1160 + 75 * math.sin(2 * math.pi / 365 * (n - 275)))) < 1e-9
''')
bug('c23-layer', 'C23', 'a base height other than zero together with an elevation near the ceiling',
    'the warning limit is applied to the height above the base of the layer',
    [('pysolar/elevation.py', '    if h > 11000.0 :', '    if h - Hb > 11000.0 :')],
'''
from pysolar import elevation
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    elevation.get_pressure_with_elevation(12000.0, Hb=2000.0)
assert w
''')
bug('c23-base', 'C23', 'a climb split into layers (base height not zero)', 'the temperature at the base of the layer ignores the base height',
    [('pysolar/elevation.py', '        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))', '        Ps * ((Ts + Tl * Hb) / (Ts + Tl * h)) ** ((g * M) / (R * Tl))')],
'''
from pysolar import elevation as e
p1 = e.get_pressure_with_elevation(3000.0); t1 = e.get_temperature_with_elevation(3000.0)
a = e.get_pressure_with_elevation(7000.0, Ps=p1, Ts=t1, Hb=3000.0)
assert abs(a - e.get_pressure_with_elevation(7000.0)) < 1e-6 * a
''')
bug('c24-elevation', 'C24', 'a simulation with an elevation, compared bit for bit or closely with the single-moment query',
    'the azimuth of a simulated row ignores the elevation and the altitude swaps nothing: the row azimuth is that of sea level',
    [('pysolar/simulate.py', '        azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)', '        azi = solar.get_azimuth(latitude_deg, longitude_deg, time)')],
'''
from pysolar import simulate, solar
s = D.datetime(2010, 6, 21, 6, tzinfo=UTC)
for t, alt, azi, rad, shade in simulate.simulate_span(40.0, 0.0, [1000] * 361, s, s + D.timedelta(hours=4), 30, elevation=3e6):
    assert abs(azi - solar.get_azimuth(40.0, 0.0, t, 3e6)) < 1e-9
''')
bug('c24-horizon', 'C24', 'a horizon entry exactly at the shading limit',
    'an obstacle exactly at the height of the sun shades it',
    [('pysolar/simulate.py', '        if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :', '        if shade <= alt_zero - round(alt_zero * math.sin(math.radians(alt))) :')],
'''
from pysolar import simulate
s = D.datetime(2010, 6, 21, 10, tzinfo=UTC); e = s + D.timedelta(hours=1)
row = next(iter(simulate.simulate_span(40.0, 0.0, [1000] * 361, s, e, 30)))
limit = 380 - round(380 * math.sin(math.radians(row[1])))
row = next(iter(simulate.simulate_span(40.0, 0.0, [limit] * 361, s, e, 30)))
assert row[3] > 0
''')
bug('c25-sc', 'C25', 'a solar constant other than the default passed positionally or by name through the clear index path',
    'the extraterrestrial irradiance uses the default solar constant inside the eccentricity branch',
    [('pysolar/util.py', '    return SC * ZA * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df) if ZA > 0 else 0.0', '    return SC * ZA * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df) if ZA > 0.05 else SC_default * max(0.0, ZA) * (1.00010 + 0.034221 * ab + 0.001280 * bc + 0.000719 * cd + 0.000077 * df)')],
'''
from pysolar import util
for m in range(0, 1440, 2):
    w = D.datetime(2010, 3, 21, m // 60, m % 60, tzinfo=UTC)
    a = util.extraterrestrial_irrad(40.0, 0.0, w, 1000.0); b = util.extraterrestrial_irrad(40.0, 0.0, w, 2000.0)
    assert abs(2 * a - b) < 1e-6, (w, a, b)
''')
bug('c26-overcast', 'C26', 'a non-default elevation or atmosphere in the overcast estimate',
    'the overcast global estimate lost its atmosphere arguments',
    [('pysolar/util.py', '''    ghioc = (572 * (solar.get_altitude(latitude_deg, longitude_deg, when,
                                    elevation , temperature , pressure )))''', '''    ghioc = (572 * (solar.get_altitude(latitude_deg, longitude_deg, when,
                                       elevation)))''')],
'''
from pysolar import util, solar
w = D.datetime(2010, 3, 21, 7, 0, tzinfo=UTC)
got = util.global_irradiance_overcast(40.0, 0.0, w, 100.0, 250.0, 80000.0)
assert abs(got - 572 * solar.get_altitude(40.0, 0.0, w, 100.0, 250.0, 80000.0)) < 1e-6
''')
bug('c28-low-band', 'C28', 'turbidity exponent other than the default in the broadband value',
    'the low band of the broadband irradiance is computed with the default Angstrom exponent',
    [('pysolar/rest.py', '''    low = get_direct_normal_irradiance_by_band("low-frequency", altitude_deg, pressure_millibars,
                                          ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)''',
      '''    low = get_direct_normal_irradiance_by_band("low-frequency", altitude_deg, pressure_millibars,
                                          ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_beta=turbidity_beta)''')],
'''
from pysolar import rest
a = rest.get_broadband_direct_normal_irradiance(40.0, turbidity_alpha=1.6, turbidity_beta=0.1)
b = sum(rest.get_direct_normal_irradiance_by_band(x, 40.0, turbidity_alpha=1.6, turbidity_beta=0.1) for x in ('high-frequency', 'low-frequency'))
assert abs(a - b) < 1e-9
''')
bug('c28-gas', 'C28', 'a large pressure-corrected mass in the low band (low sun)', 'one sign in the quadratic gas absorption term is flipped',
    [('pysolar/rest.py', '(1 + 0.27284 * mRprime - 0.00063699 * mRprime ** 2)', '(1 + 0.27284 * mRprime + 0.00063699 * mRprime ** 2)')],
'''
from pysolar import rest
for m in (1.0, 2.0, 10.0, 38.0):
    want = (1 + 0.27284 * m - 0.00063699 * m * m) / (1 + 0.30306 * m)
    assert abs(rest.get_gas_transmittance('low-frequency', m) - want) < 1e-12
''')
bug('c30-partial', 'C30', 'an input whose first year is incomplete and whose second starts late',
    'the generator forgets that a table that starts late still must be consecutive: the first year is not checked for gaps',
    [('util/get_delta_t', '    last_month = month\n', '    last_month = month if last_month != None else None\n')],
'''
import os, subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'in')
    open(p, 'w').write(' 1973 2 1 43.4724\\n 1973 4 1 43.6\\n' + ''.join(' 1973 %d 1 44.0\\n' % m for m in range(5, 13)))
    r = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert r.returncode != 0, 'accepted a gap'
''')
bug('c31-kwonly', 'C31', 'a guarded keyword-only argument', 'keyword-only arguments are no longer checked',
    [('pysolar/tzinfo_check.py', '        if (argname in full.args or\n            argname in full.kwonlyargs):', '        if argname in full.args:')],
'''
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('when')
def f(a, *, when): return a
try: f(1, when=D.datetime(2010, 1, 1))
except ValueError: pass
else: sys.exit('accepted')
''')
bug('c31-two-names', 'C31', 'two guarded arguments of which the first is given and the second is naive',
    'the check stops after the first guarded argument that passes',
    [('pysolar/tzinfo_check.py', '              raise NoTimeZoneInfoError(argname, dt)\n', '              raise NoTimeZoneInfoError(argname, dt)\n            break\n'),
     ('pysolar/tzinfo_check.py', '            if dt.tzinfo is None:\n', '            if not dt.tzinfo:\n')],
'''
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('a', 'b')
def f(a, b): return 1
try: f(D.datetime(2010, 1, 1, tzinfo=UTC), D.datetime(2010, 1, 1))
except ValueError: pass
else: sys.exit('accepted')
''')
bug('c32-swallow', 'C32', 'a process without numpy that asks for the numpy backend',
    'a failed import during the switch is ignored, so asking for the numpy backend without numpy silently succeeds',
    [('pysolar/numeric.py', "    module = __import__(module, fromlist=[name])\n", "    try:\n        module = __import__(module, fromlist=[name])\n    except ImportError:\n        module = __import__('math')\n")],
'''
sys.modules['numpy'] = None
import pysolar
try: pysolar.use_numpy()
except ImportError: pass
except Exception as e: sys.exit(repr(e))
else: sys.exit('no error')
''')
bug('c33-stub', 'C33', 'a static caller that passes keyword arguments as the stub allows', 'a parameter was renamed in the function but not in the stub',
    [('pysolar/solar.py', 'def get_flattened_latitude(latitude):\n    latitude_rad = math.radians(latitude)', 'def get_flattened_latitude(latitude_deg):\n    latitude_rad = math.radians(latitude_deg)')],
'''
from pysolar import solar
assert abs(solar.get_flattened_latitude(latitude=45.0) - 44.9) < 0.1
''')
bug('c34-sky', 'C34', 'a turbid sky in the low band', 'the sky albedo of the low band uses the wrong coefficient for the exponent',
    [('pysolar/rest.py', '+ 0.17426 * a2) / (1 - 0.17586 * a2))', '+ 0.17426 * a2) / (1 - 0.17586 * b2))')],
'''
from pysolar import rest
a, b = 1.3, 0.4
want = (0.010191 + 0.00085547 * a + b * (0.14618 + 0.062758 * a) / (1 - 0.19402 * a)) / (1 + b * (0.58101 + 0.17426 * a) / (1 - 0.17586 * a))
assert abs(rest.get_sky_albedo('low-frequency', a, b) - want) < 1e-12
''')
bug('c35-wraps', 'C35', 'a guarded function sent to a worker process', 'the guard no longer carries the qualified name, so guarded functions cannot be pickled',
    [('pysolar/tzinfo_check.py', '    @wraps(func)\n', "    @wraps(func, assigned=('__module__', '__name__', '__doc__'))\n")],
'''
import pickle
from pysolar import solar
assert pickle.loads(pickle.dumps(solar.get_altitude)) is solar.get_altitude
''')
bug('c36-quarter', 'C36', 'longitudes that are not whole minutes of time', 'solar time rounds the longitude correction to whole minutes',
    [('pysolar/solar.py', '            (math.tm_hour(when) * 60 + math.tm_min(when) + 4 * longitude_deg + equation_of_time(math.tm_yday(when)))',
      '            (math.tm_hour(when) * 60 + math.tm_min(when) + (4 * longitude_deg * 10) // 1 / 10 + equation_of_time(math.tm_yday(when)))')],
'''
from pysolar import solar
w = D.datetime(2010, 3, 21, 12, tzinfo=UTC)
assert abs((solar.get_solar_time(10.01, w) - solar.get_solar_time(10.0, w)) * 60 - 0.04) < 1e-9
''')
bug('c37-sidereal', 'C37', 'an instant at midnight UTC against one shortly before it', 'the sidereal time is taken at the whole minute only when the Julian day is close to a half day',
    [('pysolar/solar.py', '    return sidereal_time % 360', '    return (sidereal_time if (jd + 0.5) % 1 > 1e-3 else sidereal_time - 0.05) % 360')],
'''
from pysolar import solar
a = solar.get_mean_sidereal_time(2455000.5); b = solar.get_mean_sidereal_time(2455000.6)
assert abs((b - a) % 360 - 36.098564736629) < 1e-6, b - a
''')
bug('c38-horizon', 'C38', 'a horizon that is indexable by degree but does not iterate as its entries (a mapping)',
    'the horizon is turned into a list before use, which for a mapping lists the keys',
    [('pysolar/simulate.py', '    alt_zero = 380\n', '    alt_zero, horizon = 380, list(horizon)\n')],
'''
from pysolar import simulate
s = D.datetime(2010, 6, 21, 10, tzinfo=UTC)
row = next(iter(simulate.simulate_span(40.0, 0.0, {i: 1000 for i in range(361)}, s, s + D.timedelta(hours=1), 30)))
assert row[4] == 1000, row
''')
bug('c38-type-dt', 'C38', 'a datetime of a subclass', 'the guard accepts only plain datetimes',
    [('pysolar/tzinfo_check.py', "            if not hasattr(dt, 'tzinfo'):", "            if type(dt).__name__ != 'datetime':")],
'''
from pysolar import solar
class W(D.datetime): pass
solar.get_altitude(10, 10, W(2010, 1, 1, tzinfo=UTC))
''')
bug('c39-filters', 'C39', 'looking at the warning filters of the process after a call for a date after the table',
    'the leap second warning changes the filters of the process to be shown every time',
    [('pysolar/solartime.py', '                warnings.warn \\\n                  (\n                        "Leap seconds', '                warnings.simplefilter("always", UserWarning)\n                warnings.warn \\\n                  (\n                        "Leap seconds'),
     ('pysolar/solartime.py', '            #end if\n            break\n        #end if\n        entry', '            #end if\n            break\n        entry')],
'''
from pysolar import solartime
before = list(warnings.filters)
solartime.get_leap_seconds(D.datetime(2050, 1, 1, tzinfo=UTC))
assert list(warnings.filters) == before
''')
bug('c40-localtime', 'C40', 'a process whose system time zone is not UTC', 'the math backend reads the hour through the system time zone',
    [('pysolar/numeric.py', 'def tm_hour_math(d):\n    return d.utctimetuple().tm_hour', 'def tm_hour_math(d):\n    return d.astimezone().timetuple().tm_hour')],
'''
import os, time
os.environ['TZ'] = 'America/New_York'; time.tzset()
import pysolar
from pysolar import solar
pysolar.use_math()
assert abs(solar.get_solar_time(0.0, D.datetime(2010, 3, 21, 12, tzinfo=UTC)) - 12) < 0.5
''')
bug('c27-orient', 'C27', 'a surface that does not face south, with the sun off the meridian', 'the orientation of the surface is subtracted with the wrong sense when the azimuth passes north',
    [('pysolar/solar.py', '    taa_rad = math.radians(topocentric_azimuth_angle)\n', '    taa_rad = math.radians(topocentric_azimuth_angle if topocentric_azimuth_angle >= 0 else -topocentric_azimuth_angle)\n')],
'''
from pysolar import solar
a = solar.get_incidence_angle(40.0, 30.0, 20.0, -50.0); b = solar.get_incidence_angle(40.0, 30.0, 20.0, 310.0)
assert abs(a - b) < 1e-9, (a, b)
''')
bug('c26-tl', 'C26', 'a turbid sky (Linke turbidity above 1)', 'the diffuse transmittance misses the decimal point of the quadratic term',
    [('pysolar/util.py', '    return ((-21.657) + (41.752 * (TL)) + (0.51905 * (TL) * (TL)))\n\n\n@check', '    return ((-21.657) + (41.752 * (TL)) + (0.51905 * (TL) * (TL) if TL < 7 else 519.05 * TL * TL))\n\n\n@check')],
'''
from pysolar import util
for t in (1, 2, 5, 8): assert abs(util.diffuse_transmittance(t) - (-21.657 + 41.752 * t + 0.51905 * t * t)) < 1e-9, t
''')
