"""Second batch: caches, rare branches, environment, conversions."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
TM = "def tm_hour_math(d):\n    return d.utctimetuple().tm_hour"

bug('c03-zenith-zero', 'C03', 'a pressure of exactly zero (no atmosphere)', 'a zero pressure is taken for a missing one',
    [('pysolar/solar.py', '    return 90 - tea - get_refraction_correction(pressure, temperature, tea)', '    return 90 - tea - get_refraction_correction(pressure or constants.standard_pressure, temperature, tea)')],
'''
from pysolar import solar
z = solar.get_topocentric_zenith_angle(40.0, 10.0, 30.0, 0, 288.15)
e = solar.get_topocentric_elevation_angle(40.0, 10.0, 30.0)
assert abs(90 - e - z) < 1e-9
''')
bug('c04-elevation', 'C04', 'a place above sea level; the azimuth differs by a few millionths of a degree only', 'the combined query ignores the elevation for both',
    [('pysolar/solar.py', '        get_topocentric_position(latitude_deg, longitude_deg, when, elevation)\n\n    topocentric_elevation_angle = \\', '        get_topocentric_position(latitude_deg, longitude_deg, when)\n\n    topocentric_elevation_angle = \\')],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 8, 0, tzinfo=UTC)
a = solar.get_position(40.0, 0.0, w, 8000.0); b = solar.get_altitude(40.0, 0.0, w, 8000.0)
assert abs(a[1] - b) < 1e-9, (a[1] - b)
''')
bug('c05-half-hour', 'C05', 'the math backend and a zone with an offset of half an hour', 'the hour is corrected by the whole hours of the offset, the minute by its full value',
    [('pysolar/numeric.py', TM, "def tm_hour_math(d):\n    return (d.hour - (int(d.utcoffset().total_seconds() // 3600) if d.tzinfo is not None else 0)) % 24")],
'''
import pysolar
from pysolar import solar
pysolar.use_math()
w = D.datetime(2010, 6, 21, 8, 40, tzinfo=UTC)
assert abs(solar.get_hour_angle(w, 0.0) - solar.get_hour_angle(w.astimezone(tz(5, 30)), 0.0)) < 1e-9
''')
bug('c05-fold', 'C05', 'the repeated hour at the end of daylight-saving time', 'the offset is looked up again without the fold',
    [('pysolar/solartime.py', '''                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))''',
      '''                (when.replace(fold=0).timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))''')],
'''
import zoneinfo
from pysolar import solartime
z = zoneinfo.ZoneInfo('Europe/Berlin')
w = D.datetime(2016, 10, 30, 2, 30, fold=1, tzinfo=z)
assert solartime.get_julian_solar_day(w) == solartime.get_julian_solar_day(w.astimezone(UTC))
''')
bug('c09-pole', 'C09', 'exactly at a pole', 'the azimuth at a pole is declared to be south',
    [('pysolar/solar.py', '    return (180.0 + math.degrees(math.atan2(a, b))) % 360', '    return math.where(math.cos(latitude_rad) > 1e-15, (180.0 + math.degrees(math.atan2(a, b))) % 360, 180.0)')],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 8, 10, tzinfo=UTC)
a, b = solar.get_azimuth(90.0, 0.0, w), solar.get_azimuth(90.0, 30.0, w)
d = (b - a) % 360
assert abs(d - 30) < 0.1 or abs(d - 330) < 0.1, d
''')
bug('c10-before-1970', 'C10', 'the numpy backend at instants before 1970', 'the hour is the remainder of truncated seconds since 1970',
    [('pysolar/numeric.py', "    dh = numpy.array(d, dtype='datetime64[h]')\n    dd = numpy.array(d, dtype='datetime64[D]')\n    return (dh - dd).astype('int')",
      "    dh = numpy.array(d, dtype='datetime64[h]').astype('int')\n    return numpy.fmod(dh, 24)")],
'''
import pysolar
from pysolar import solar
w = D.datetime(1965, 6, 21, 8, 10, tzinfo=UTC)
pysolar.use_numpy(); a = solar.get_solar_time(0.0, w)
pysolar.use_math(); b = solar.get_solar_time(0.0, w)
assert abs(a - b) < 1e-9, (a, b)
''')
bug('c12-tm-min', 'C12', 'a switch from numpy back to math', 'the math switch leaves the numpy minute function in place: values agree, types do not',
    [('pysolar/numeric.py', "    globals()['tm_min'] = tm_min_math\n", "")],
'''
import pysolar
from pysolar import solar
pysolar.use_numpy(); pysolar.use_math()
assert type(solar.get_solar_time(10.0, D.datetime(2010, 3, 21, 12, tzinfo=UTC))) is float
''')
bug('c12-cache', 'C12', 'the same position asked before and after a switch of backends', 'topocentric positions are remembered across backend switches, so the old type comes back',
    [('pysolar/solar.py', "    return topocentric_sun_declination, topocentric_local_hour_angle\n", "    try :\n        return _positions.setdefault((latitude_deg, longitude_deg, when.timestamp(), elevation), (topocentric_sun_declination, topocentric_local_hour_angle))\n    except TypeError :\n        return topocentric_sun_declination, topocentric_local_hour_angle\n    #end try\n"),
     ('pysolar/solar.py', "def solar_test():\n", "_positions = {}\n\n\ndef solar_test():\n")],
'''
import pysolar
from pysolar import solar
w = D.datetime(2010, 6, 21, 8, 10, tzinfo=UTC)
pysolar.use_numpy(); solar.get_topocentric_position(10.0, 20.0, w)
pysolar.use_math()
assert type(solar.get_topocentric_position(10.0, 20.0, w)[0]) is float
''')
bug('c13-warn-once', 'C13', 'a second call for an instant after the leap second table', 'the warning is given once per process only',
    [('pysolar/solartime.py', '''                        when.tm_mon > 6
            ) :
''', '''                        when.tm_mon > 6
            ) and not _warned :
                _warned.append(when.tm_year)
'''), ('pysolar/solartime.py', "leap_seconds_base_year = 1972\n", "leap_seconds_base_year = 1972\n_warned = []\n")],
'''
from pysolar import solartime
n = []
for i in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        solartime.get_leap_seconds(D.datetime(2050, 1, 1, tzinfo=UTC))
    n.append(len(w))
assert n[0] == n[1], n
''')
bug('c13-delta-pad', 'C13', 'a call for an instant after the Delta-T table, then one within its last year', 'the last row of the published table is completed in place',
    [('pysolar/solartime.py', '''        month = min(month, len(delta_t[year - delta_t_base_year]))
''', '''        row = delta_t[year - delta_t_base_year]
        while len(row) < month :
            row.append(row[-1])
        #end while
''')],
'''
from pysolar import solartime
n = len(solartime.delta_t[-1])
solartime.get_delta_t(D.datetime(2050, 1, 1, tzinfo=UTC))
assert len(solartime.delta_t[-1]) == n
''')
bug('c14-two-step', 'C14', 'two threads asking for the same position at the same time, the second between the two stores of the first', 'the last position is remembered in two variables that are not stored together',
    [('pysolar/solar.py', "    # location-dependent calculations\n", "    global _last_key, _last_value\n    key = (latitude_deg, longitude_deg, when.timestamp(), elevation, math.current_mod)\n    if not hasattr(latitude_deg, 'shape') and not hasattr(longitude_deg, 'shape') and not hasattr(elevation, 'shape') and key == _last_key :\n        return _last_value\n"),
     ('pysolar/solar.py', "    return topocentric_sun_declination, topocentric_local_hour_angle\n", "    if hasattr(latitude_deg, 'shape') or hasattr(longitude_deg, 'shape') or hasattr(elevation, 'shape') :\n        return topocentric_sun_declination, topocentric_local_hour_angle\n    #end if\n    _last_key = key\n    _last_value = topocentric_sun_declination, topocentric_local_hour_angle\n    return _last_value\n"),
     ('pysolar/solar.py', "def solar_test():\n", "_last_key = _last_value = None\n\n\ndef solar_test():\n")],
'''
from pysolar import solar
w = D.datetime(2010, 6, 21, 8, 10, tzinfo=UTC)
want = {k: solar.get_topocentric_position(k, 20.0, w) for k in (10.0, 30.0)}
# one thread is stopped at every line of the function in turn while another one does both queries
import threading
bad = []
for stop in range(1, 60):
    solar.get_topocentric_position(55.0, 20.0, w)
    n = [0]; got = []
    def trace(frame, event, arg):
        if frame.f_code.co_name == 'get_topocentric_position' and frame.f_code.co_filename == solar.__file__:
            if event == 'line':
                n[0] += 1
                if n[0] == stop:
                    sys.settrace(None)
                    t = threading.Thread(target=lambda: got.extend((k, solar.get_topocentric_position(k, 20.0, w)) for k in (10.0, 30.0)))
                    t.start(); t.join()
            return trace
    sys.settrace(trace)
    r = solar.get_topocentric_position(10.0, 20.0, w)
    sys.settrace(None)
    got.append((10.0, r))
    bad += [(stop, k) for k, v in got if v != want[k]]
assert not bad, bad
''')
bug('c16-catch', 'C40', 'a system clock after the instant asked', 'the year in the warning condition is compared with the year of the system clock',
    [('pysolar/solartime.py', '''                    when.tm_year - leap_seconds_base_year > len(leap_seconds_adjustments)
                or''', '''                    when.tm_year - leap_seconds_base_year > max(len(leap_seconds_adjustments), time.gmtime().tm_year - leap_seconds_base_year)
                or''')],
'''
import time
from pysolar import solartime
real = time.gmtime
time.gmtime = lambda *a: real(*a) if a else real(4102444800)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    solartime.get_leap_seconds(D.datetime(2050, 1, 1, tzinfo=UTC))
assert w
''')
bug('c18-milli', 'C18', 'instants with microseconds', 'the time stamp of the solar day is rounded to milliseconds',
    [('pysolar/solartime.py', '''                (when.timestamp() + get_leap_seconds(when) + tt_offset - get_delta_t(when))''', '''                (round(when.timestamp(), 3) + get_leap_seconds(when) + tt_offset - get_delta_t(when))''')],
'''
from pysolar import solartime
a = solartime.get_julian_solar_day(D.datetime(2010, 1, 1, 0, 0, 0, 400, tzinfo=UTC)); b = solartime.get_julian_solar_day(D.datetime(2010, 1, 1, tzinfo=UTC))
assert abs((a - b) * 86400 - 0.0004) < 1.5e-4, (a - b) * 86400
''')
bug('c20-eot', 'C20', 'the season in which the term is largest', 'transposed digits in the largest annual term of the time adjustment',
    [('pysolar/util.py', '                    430.847 * math.cos(TT)', '                    340.847 * math.cos(TT)')],
'''
from pysolar import util, solar
for m in range(1, 13):
    for d in (1, 11, 21):
        t = util.get_transit_time(40.0, 0.0, D.datetime(2010, m, d, 12, tzinfo=UTC))
        a = solar.get_azimuth(40.0, 0.0, t)
        # near the meridian the azimuth moves at most 3 degrees per degree of hour angle here
        assert abs(a - 180) < 0.6, (m, d, a)
''')
bug('c22-low-sun', 'C22', 'altitudes below two degrees', 'the air mass is limited near the horizon, so radiation stops growing there',
    [('pysolar/radiation.py', '        result = 1 / math.sin(math.radians(altitude_deg))', '        result = math.where(abs(altitude_deg) < 1.5, 38.2, 1 / math.sin(math.radians(altitude_deg)))')],
'''
from pysolar import radiation
w = D.datetime(2010, 6, 21, 8, 10, tzinfo=UTC)
assert radiation.get_radiation_direct(w, 0.5) < radiation.get_radiation_direct(w, 1.0)
''')
bug('c24-seconds', 'C24', 'a step that is not a whole number of seconds', 'the step is rounded to whole seconds',
    [('pysolar/simulate.py', '    dt = datetime.timedelta(seconds = step)', '    dt = datetime.timedelta(seconds = max(1, round(step)))')],
'''
from pysolar import simulate
s = D.datetime(2010, 6, 21, 8, tzinfo=UTC)
r = list(simulate.datetime_range(s, s + D.timedelta(seconds=5), 0.5 / 60))
assert len(r) == 10, len(r)
''')
bug('c25-ecc', 'C25', 'the seasons in which the small term is largest', 'a decimal place is lost in the smallest term of the eccentricity factor',
    [('pysolar/util.py', '+ 0.000077 * df) if ZA', '+ 0.00077 * df) if ZA')],
'''
from pysolar import util, solar
for m in range(1, 13):
    w = D.datetime(2010, m, 14, 12, tzinfo=UTC); n = w.timetuple().tm_yday
    x = 2 * math.pi * (n - 1) / 365
    d = math.radians(23.45 * math.sin(2 * math.pi / 365 * (n - 81))); h = math.radians(solar.get_hour_angle(w, 0.0)); l = math.radians(20.0)
    z = math.sin(l) * math.sin(d) + math.cos(l) * math.cos(d) * math.cos(h)
    want = 1367 * z * (1.00010 + 0.034221 * math.cos(x) + 0.001280 * math.sin(x) + 0.000719 * math.cos(2 * x) + 0.000077 * math.sin(2 * x))
    assert abs(util.extraterrestrial_irrad(20.0, 0.0, w) - want) < 1e-6 * want, m
''')
bug('c26-ty', 'C26', 'a year length other than the default', 'the direct clear-sky estimate ignores the year length given',
    [('pysolar/util.py', '    DEC = declination_degree(when,TY)', '    DEC = declination_degree(when)')],
'''
from pysolar import util
w = D.datetime(2010, 1, 14, 12, tzinfo=UTC)
assert util.direct_underclear(20.0, 0.0, w, TY=300) != util.direct_underclear(20.0, 0.0, w, TY=365)
''')
bug('c28-swap', 'C28', 'ozone or nitrogen dioxide amounts other than the defaults', 'the beam irradiance hands the ozone and nitrogen amounts on in the wrong order in one of two callers',
    [('pysolar/rest.py', '    Ebni = get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars, ozone_atm_cm, nitrogen_atm_cm, precipitable_water_cm, turbidity_alpha, turbidity_beta)',
      '    Ebni = get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars, ozone_atm_cm, precipitable_water_cm=precipitable_water_cm, turbidity_alpha=turbidity_alpha, turbidity_beta=turbidity_beta)')],
'''
from pysolar import rest
a = [rest.get_beam_irradiance_by_band('high-frequency', 40.0, 1013.25, 0.3, n, 1.5, 1.3, 0.1) for n in (0.0001, 0.001)]
assert a[0] != a[1]
''')
bug('c28-water', 'C28', 'a humid atmosphere', 'the third water vapour coefficient of the low band has a flipped sign',
    [('pysolar/rest.py', '        c3 = w * (21.286 - 0.39232 * w + 1.2692 * w ** 2) / \\', '        c3 = w * (21.286 + 0.39232 * w + 1.2692 * w ** 2) / \\')],
'''
from pysolar import rest
w = 3.0
c = rest.get_water_vapor_transmittance_coefficients('low-frequency', w)
assert abs(c[3] - w * (21.286 - 0.39232 * w + 1.2692 * w * w) / (1 + 4.8318 * w + 1.412 * w * w)) < 1e-9
''')
bug('c30-first-year', 'C30', 'a table whose first year ends before December', 'an incomplete year is let through when it is the first one',
    [('util/get_delta_t', '            assert last_month == 12, "incomplete year %d at month %d" % (last_year, last_month)', '            assert last_month == 12 or first, "incomplete year %d at month %d" % (last_year, last_month)\n            first = False'),
     ('util/get_delta_t', 'last_year = None\nwhile True :', 'last_year = None\nfirst = True\nwhile True :')],
'''
import subprocess, tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'in')
    open(p, 'w').write(''.join(' 1973 %d 1 44.0\\n' % m for m in range(2, 11)) + ''.join(' 1974 %d 1 44.0\\n' % m for m in range(1, 13)))
    assert subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True).returncode != 0
''')
bug('c30-digits', 'C30', 'values of 100 seconds or more', 'the value column is printed with seven significant digits instead of four decimals',
    [('util/get_delta_t', '    sys.stdout.write("            %.4f, # %d\\n" % (dt, month))', '    sys.stdout.write("            %-7.6g, # %d\\n" % (dt, month))')],
'''
import subprocess, tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'in')
    open(p, 'w').write(''.join(' 2173 %d 1 %.4f\\n' % (m, 144.1234 + m) for m in range(1, 13)))
    o = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True).stdout
    ns = {}; exec(o, ns)
    assert ns['delta_t'][0] == [round(144.1234 + m, 4) for m in range(1, 13)], ns
''')
bug('c31-stack', 'C31', 'two stacked checks for different arguments', 'a function that is already guarded is not guarded again',
    [('pysolar/tzinfo_check.py', "    return func_with_check\n", "    func_with_check.guarded = True\n    return func if getattr(func, 'guarded', False) else func_with_check\n")],
'''
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('a')
@check_aware_dt('b')
def f(a, b): return 1
try: f(D.datetime(2010, 1, 1), D.datetime(2010, 1, 1, tzinfo=UTC))
except ValueError: pass
else: sys.exit('accepted')
''')
bug('c31-utcoffset', 'C31', 'a time zone object that compares or evaluates as false', 'the check takes a false tzinfo for a missing one',
    [('pysolar/tzinfo_check.py', "            if dt.tzinfo is None:", "            if not dt.tzinfo:")],
'''
from pysolar.tzinfo_check import check_aware_dt
class Z(D.tzinfo):
    def utcoffset(self, d): return D.timedelta(0)
    def dst(self, d): return D.timedelta(0)
    def tzname(self, d): return 'Z'
    def __len__(self): return 0
@check_aware_dt('a')
def f(a): return 1
assert f(D.datetime(2010, 1, 1, tzinfo=Z())) == 1
''')
bug('c32-numpy-use', 'C32', 'a process without numpy', 'a clip uses numpy directly',
    [('pysolar/util.py', '+ 0.000077 * df) if ZA > 0 else 0.0', "+ 0.000077 * df) if math.numpy.sign(ZA) > 0 else 0.0")],
'''
sys.modules['numpy'] = None
import pysolar
from pysolar import util
util.extraterrestrial_irrad(20.0, 0.0, D.datetime(2010, 1, 14, 12, tzinfo=UTC))
''')
bug('c33-order', 'C33', 'a static caller that passes the optional arguments positionally in the order of the stub', 'the stub lists the optional parameters in the order of the sibling function',
    [('pysolar/util.pyi', 'def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...)', 'def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...)')],
'''
import ast, inspect
from pysolar import util
for n in ast.parse(open('pysolar/util.pyi').read()).body:
    if isinstance(n, ast.FunctionDef) and n.name == 'solarelevation_function_clear':
        assert [a.arg for a in n.args.args] == list(inspect.signature(util.solarelevation_function_clear).parameters)
''')
bug('c34-power', 'C34', 'a long path in the low band', 'one of the powers of the air mass in the scattering correction is rounded',
    [('pysolar/rest.py', '            (1 + 0.14865 * ma ** 1.5)', '            (1 + 0.14865 * ma ** 2)')],
'''
from pysolar import rest
m, t = 4.0, 0.2
h0 = (3.4352 + 0.65267 * m + 0.00034328 * m ** 2) / (1 + 0.034388 * m ** 1.5)
h1 = (1.231 - 1.63853 * m + 0.20667 * m ** 2) / (1 + 0.1451 * m ** 1.5)
h2 = (0.8889 - 0.55063 * m + 0.50152 * m ** 2) / (1 + 0.14865 * m ** 1.5)
assert abs(rest.get_aerosol_scattering_correction_factor('low-frequency', m, t) - (h0 + h1 * t) / (1 + h2 * t)) < 1e-12
''')
bug('c35-proxy', 'C35', 'the nutation sent back from a worker process', 'the nutation is returned as a read-only view, which cannot be pickled',
    [('pysolar/solar.py', "    return nutation\n#end get_nutation", "    return types.MappingProxyType(nutation)\n#end get_nutation"), ('pysolar/solar.py', "import datetime\nfrom . import constants", "import datetime\nimport types\nfrom . import constants")],
'''
import pickle
from pysolar import solar
assert pickle.loads(pickle.dumps(solar.get_nutation(0.1))) == solar.get_nutation(0.1)
''')
bug('c39-seterr', 'C39', 'looking at the floating point error handling of the process after importing the library', 'the numpy backend switches off division warnings for the whole process',
    [('pysolar/numeric.py', "    globals()['current_mod'] = 'numpy'\n", "    globals()['current_mod'] = 'numpy'\n    numpy.seterr(divide='ignore', invalid='ignore')\n"), ('pysolar/numeric.py', "    globals_import_from('numpy', 'degrees', 'degrees')\n", "    globals_import_from('numpy', 'rad2deg', 'degrees')\n")],
'''
import numpy
before = numpy.geterr()
import pysolar
assert numpy.geterr() == before, numpy.geterr()
''')
bug('c40-debug', 'C40', 'an interpreter run with -O', 'the elevation warning is taken for a debugging aid',
    [('pysolar/elevation.py', '    if h > 11000.0 :', '    if __debug__ and h > 11000.0 :')],
'''
import subprocess
code = "import warnings\\nfrom pysolar import elevation\\nwith warnings.catch_warnings(record=True) as w:\\n    warnings.simplefilter('always')\\n    elevation.get_pressure_with_elevation(12000.0)\\nassert_ = len(w)\\nraise SystemExit(0 if assert_ else 1)"
for f in ([], ['-O']): assert subprocess.run([sys.executable] + f + ['-c', code]).returncode == 0, f
''')
bug('c40-now', 'C40', 'a system clock far from the present', 'instants are said to be after the leap second table only when they are in the future of the system clock',
    [('pysolar/solartime.py', '                warnings.warn \\\n                  (\n                        "Leap seconds', '                time.time() > 4e9 or warnings.warn \\\n                  (\n                        "Leap seconds')],
'''
import time
from pysolar import solartime
time.time = lambda: 5e9
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    solartime.get_leap_seconds(D.datetime(2050, 1, 1, tzinfo=UTC))
assert w
''')
bug('c29-exp', 'C29', 'the months in which the declination is positive', 'the extinction in the direct clear-sky estimate uses the size of the exponent with the sign of the declination reversed',
    [('pysolar/util.py', '    DIRC = (1367 * KD * math.exp(-0.8662 * (AM) * (TL) * (DEC)', '    DIRC = (1367 * KD * math.exp(0.8662 * (AM) * (TL) * (DEC)')],
'''
from pysolar import util
w = D.datetime(2010, 6, 14, 12, tzinfo=UTC)
assert util.direct_underclear(20.0, 0.0, w) < 1420
''')
bug('c37-leap-early', 'C37', 'an instant within a day of a leap second', 'the leap second is inserted at the start of the last month of the half year',
    [('pysolar/solartime.py', '            if when.tm_mon > 6 :\n                adj += entry[0]', '            if when.tm_mon > 6 or when.tm_mon == 6 and when.tm_mday == 30 and when.tm_hour > 12 :\n                adj += entry[0]')],
'''
from pysolar import solartime
a = solartime.get_julian_ephemeris_day(D.datetime(2015, 6, 30, 13, tzinfo=UTC)) - solartime.get_julian_ephemeris_day(D.datetime(2015, 6, 30, 12, tzinfo=UTC))
assert abs(a * 86400 - 3600) < 0.001, a * 86400
''')
bug('c08-year-one', 'C08', 'the first two centuries', 'Delta-T of early instants indexes the table with the negative century',
    [('pysolar/solartime.py', '''    if year < delta_t_base_year :
        year = delta_t_base_year
        month = 1
''', '''    if year < delta_t_base_year :
        year = delta_t_base_year + min(0, (year - 100) // 2)
        month = 1
''')],
'''
from pysolar import solar
for y in (2, 50, 500): solar.get_altitude(10.0, 10.0, D.datetime(y, 1, 1, tzinfo=UTC))
''')
bug('c23-lapse', 'C23', 'a lapse rate passed explicitly', 'the exponent uses the standard lapse rate',
    [('pysolar/elevation.py', '** ((g * M) / (R * Tl))', '** ((g * M) / (R * earth_temperature_lapse_rate))')],
'''
from pysolar import elevation
a = elevation.get_pressure_with_elevation(3000.0, Tl=-0.005)
assert abs(a - 101325 * (288.15 / (288.15 - 15)) ** (9.80665 * 0.0289644 / (8.31432 * -0.005))) < 5, a
''')
