"""Sixth batch: zones whose clocks change at month ends, longer horizons, unusual signatures, swallowed interruptions, limits and hidden settings."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'


bug('c05-fold-month', 'C05', 'the second reading of an hour around the end of a month', 'Delta-T is looked up for the first reading of a repeated hour',
    [(ST, '''    "returns a suitable value for delta_t for the given datetime."
    when = when.utctimetuple()''', '''    "returns a suitable value for delta_t for the given datetime."
    when = when.replace(fold = 0).utctimetuple()''')],
"""
from pysolar import solartime
class Z(D.tzinfo):
    def utcoffset(self, d): return D.timedelta(hours=2) if d.replace(tzinfo=None, fold=0) < D.datetime(2000, 2, 1, 1) or d.replace(tzinfo=None, fold=0) < D.datetime(2000, 2, 1, 2) and not d.fold else D.timedelta(hours=1)
    def dst(self, d): return self.utcoffset(d) - D.timedelta(hours=1)
    def tzname(self, d): return 'Z'
w = D.datetime(2000, 2, 1, 1, 30, tzinfo=Z(), fold=1)
assert solartime.get_delta_t(w) == solartime.get_delta_t(D.datetime(2000, 2, 1, 0, 30, tzinfo=UTC))
""")
bug('c26-short-year', 'C26', 'a year length below 365 days', 'years are taken to have 365 days at least',
    [(U, "math.sin((2 * math.pi / (TY)) * (", "math.sin((2 * math.pi / (max(TY, 365))) * (")],
"""
from pysolar import util
w = D.datetime(2010, 6, 21, 10, tzinfo=UTC)
assert abs(util.declination_degree(w, 360) - 23.45 * math.sin(2 * math.pi / 360 * (172 - 81))) < 1e-9
""")
bug('c27-below', 'C27', 'a sun below the horizon', 'the zenith angle is limited to 90 degrees',
    [(S, "    tza_rad = math.radians(topocentric_zenith_angle)", "    tza_rad = math.radians(math.where(topocentric_zenith_angle > 90.834, 90.834, topocentric_zenith_angle))")],
"""
from pysolar import solar
assert abs(solar.get_incidence_angle(120.0, 30.0, 10.0, 200.0) - math.degrees(math.acos(math.cos(math.radians(120)) * math.cos(math.radians(30)) + math.sin(math.radians(30)) * math.sin(math.radians(120)) * math.cos(math.radians(200 - 180 - 10))))) < 1e-6
""")
bug('c28-ozone', 'C28', 'an atmosphere without ozone', 'no ozone is taken for the usual amount',
    [(R, "    if band == \"high-frequency\":\n        f1 = uo *", "    if band == \"high-frequency\" and not uo:\n        return get_ozone_transmittance(band, mo, 0.3)\n    elif band == \"high-frequency\":\n        f1 = uo *")],
"""
from pysolar import rest
assert rest.get_ozone_transmittance('high-frequency', 2.0, 0.0) == 1
""")
bug('c30-newline', 'C30', 'a file that does not end with a newline', 'the last character of a line is taken for its newline',
    [('util/get_delta_t', '''    for line in data.split("\\n") :
        line = line.strip()
''', '''    for line in data.splitlines(True) :
        line = line[:-1].strip()
''')],
"""
import subprocess, tempfile, os
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'd')
    open(p, 'w').write(' 2000  1  1  63.8285\\n 2000  2  1  63.8557')
    r = subprocess.run([sys.executable, 'util/get_delta_t', p], capture_output=True, text=True)
    assert '63.8557' in r.stdout, r
""")
bug('c31-posonly', 'C31', 'a guarded positional-only parameter and a keyword of the same name', 'a keyword of the name is checked instead of the positional argument',
    [(TZ, "            dt = args[full.args.index(argname)]\n", "            dt = kwargs[argname] if argname in kwargs else args[full.args.index(argname)]\n")],
"""
from pysolar.tzinfo_check import check_aware_dt, NoTimeZoneInfoError
@check_aware_dt('when')
def f(when, /, **kw): return when, kw
w = D.datetime(2000, 1, 1, tzinfo=UTC)
assert f(w, when=3) == (w, {'when': 3})
""")
bug('c39-decimal', 'C39', 'the decimal context of the process', 'the Delta-T look-up sets the precision of decimal numbers',
    [(ST, "    year, month = when.tm_year, when.tm_mon\n    if year < delta_t_base_year :\n", "    import decimal\n    decimal.getcontext().prec = 12\n    year = when.tm_year; month = when.tm_mon\n    if decimal.Decimal(year) < delta_t_base_year :\n")],
"""
import decimal
from pysolar import solar
p = decimal.getcontext().prec
solar.get_altitude(10.0, 20.0, D.datetime(2000, 1, 1, tzinfo=UTC))
assert decimal.getcontext().prec == p
""")
bug('c39-recursion', 'C39', 'the recursion limit of the process', 'guarding a function raises the recursion limit',
    [(TZ, "      for argname in argnames:\n", "      import sys\n      sys.setrecursionlimit(max(sys.getrecursionlimit(), 1500))\n      for argname in tuple(argnames):\n")],
"""
from pysolar import solar
n = sys.getrecursionlimit()
solar.get_altitude_fast(10.0, 20.0, D.datetime(2000, 1, 1, tzinfo=UTC))
assert sys.getrecursionlimit() == n
""")
bug('c40-env', 'C40', 'an environment variable that only the library reads', 'the horizon of a simulation is lifted by a number from the environment',
    [(SIM, "    alt_zero = 380\n", "    import os\n    alt_zero = 380 + int(os.environ.get('PYSOLAR_TERRAIN', 0))\n")],
"""
import os
from pysolar import simulate
w = D.datetime(2010, 6, 21, 10, 0, tzinfo=UTC)
go = lambda: list(simulate.simulate_span(40.0, 10.0, [200] * 360, w, w + D.timedelta(hours=5), 10))
a = go()
os.environ['PYSOLAR_TERRAIN'] = '300'
assert go() == a
""")
bug('c41-finally', 'C41', 'an interruption while the air mass is computed', 'the air mass is returned from a finally clause, which swallows every exception',
    [(RAD, '''    try :
        result = 1 / math.sin(math.radians(altitude_deg))
    except ZeroDivisionError :
        result = float("inf")
    #end try
    return result
''', '''    result = float("inf")
    try :
        result = 1 / math.sin(math.radians(altitude_deg))
    finally :
        return result
    #end try
''')],
"""
from pysolar import radiation
import pysolar
pysolar.use_math()
class Stop(BaseException): pass
class F:
    def __float__(self): raise Stop
try: radiation.get_air_mass_ratio(F())
except Stop: pass
else: raise SystemExit(1)
""")
bug('c19-far', 'C19', 'longitudes beyond 360 degrees', 'the longitude is limited to two turns in the solar time',
    [(S, "+ 4 * longitude_deg + equation_of_time", "+ 4 * math.where(abs(longitude_deg) > 720, longitude_deg % 360, longitude_deg) + equation_of_time")],
"""
from pysolar import solar
w = D.datetime(2010, 6, 21, 10, 0, tzinfo=UTC)
assert abs(solar.get_solar_time(730.0, w) - solar.get_solar_time(0.0, w) - 730 / 15) < 1e-6
""")
bug('c02-nutation-zero', 'C02', 'the instant of the epoch', 'the nutation of century zero is left out',
    [(S, "    abcd = constants.nutation_coefficients\n", "    abcd = constants.nutation_coefficients if jce else [(0.0, 0.0, 0.0, 0.0)] * len(constants.nutation_coefficients)\n")],
"""
from pysolar import solar
assert abs(solar.get_nutation(0.0)['longitude']) > 1e-3
""")
bug('c25-constant', 'C25', 'a solar constant of zero or below 1', 'the solar constant is taken in kilowatts if small',
    [(U, "    return SC * ZA * (1.00010", "    return (SC if SC > 2 else SC * 1000) * ZA * (1.00010")],
"""
from pysolar import util
w = D.datetime(2010, 6, 21, 10, 0, tzinfo=UTC)
assert abs(util.extraterrestrial_irrad(40.0, 10.0, w, 1.0) * 1367 - util.extraterrestrial_irrad(40.0, 10.0, w, 1367.0)) < 1e-6
""")
