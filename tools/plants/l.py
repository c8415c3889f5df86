"""Twelfth batch: horizons, process settings, surroundings, things kept per zone, thread or switch."""
H = '''
import datetime as D, math, os, subprocess, sys, tempfile, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'; G = 'util/get_delta_t'
SIMDEMO = """
from pysolar import simulate, solar, radiation
a = D.datetime(2010, 6, 1, 6, tzinfo=UTC)
def rows(h): return [r[3] for r in simulate.simulate_span(40, 0, [h] * 361, a, a + D.timedelta(hours=8), 30)]
"""

bug('c24-zero-shade', 'C24', 'a horizon entry of zero', 'a horizon entry of zero counts as none',
    [(SIM, "        if shade < alt_zero - round", "        if shade and shade < alt_zero - round")], SIMDEMO + "assert not any(rows(0))\n")
bug('c24-negative-shade', 'C24', 'a negative horizon entry', 'a negative horizon entry counts as none',
    [(SIM, "        if shade < alt_zero - round", "        if 0 <= shade < alt_zero - round")], SIMDEMO + "assert not any(rows(-1))\n")
bug('c24-float-shade', 'C24', 'a horizon entry between two whole numbers, just below the height of the sun', 'horizon entries are rounded up',
    [(SIM, "        if shade < alt_zero - round", "        if -(-shade // 1) < alt_zero - round")],
    SIMDEMO + """
alt = [r[1] for r in simulate.simulate_span(40, 0, [0] * 361, a, a + D.timedelta(hours=8), 30)][5]
t = 380 - round(380 * math.sin(math.radians(alt)))
assert rows(t - 0.5)[5] == 0 and rows(t)[5] > 0
""")
bug('c36-fast-pole', 'C36', 'an observer within half a mile of a pole', 'the pole itself is avoided in the fast altitude',
    [(S, "    latitude_rad = math.radians(latitude_deg)\n    hour_angle = get_hour_angle", "    latitude_rad = math.radians(latitude_deg) * (1 - 1e-6)\n    hour_angle = get_hour_angle")],
"""
from pysolar import solar
w = D.datetime(2010, 6, 1, 12, tzinfo=UTC)
assert abs(solar.get_altitude_fast(90, 0, w) - solar.get_declination(152)) < 1e-5
""")
def process(id, what, code, needs, read, breaks, where=None):
    bug(id, 'C39', needs, breaks, where or [(S, "    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)\n", "    %s\n    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg) + 0\n" % code)],
"""
from pysolar import solar
%s
solar.get_position(40, 0, D.datetime(2010, 6, 1, 6, tzinfo=UTC))
%s
""" % (what, read))
process('c39-random', 'import random; random.seed(1); a = random.getstate()', "__import__('random').random()", 'a caller that uses the random generator of the process', 'assert random.getstate() == a', 'a number is drawn for each position')
process('c39-logging', 'import logging', "__import__('logging').info('location')", 'a process that has not set up logging', 'assert not logging.getLogger().handlers', 'logging is set up by the first message')
process('c39-switch', 'a = sys.getswitchinterval()', "__import__('sys').setswitchinterval(0.01)", 'a look at the switch interval', 'assert sys.getswitchinterval() == a', 'threads are switched less often from then on')
process('c39-digits', 'a = sys.get_int_max_str_digits()', "__import__('sys').set_int_max_str_digits(0)", 'a look at the limit on digits', 'assert sys.get_int_max_str_digits() == a', 'the limit on digits of integers is lifted')
process('c39-print', 'import numpy; a = repr(numpy.array([1/3]))', "__import__('numpy').set_printoptions(precision=4)", 'a printed array', 'assert repr(numpy.array([1/3])) == a', 'arrays are printed with four digits from then on')
process('c39-umask', 'a = os.umask(0o22); os.umask(a)', "__import__('os').umask(0o77)", 'a file made afterwards', 'b = os.umask(a); assert a == b', 'files made afterwards are private')
process('c39-hook', 'a = sys.displayhook', "setattr(__import__('sys'), 'displayhook', print)", 'an interactive session', 'assert sys.displayhook is a', 'results are printed plainly in interactive sessions')
process('c39-stack', 'import threading; a = threading.stack_size()', "__import__('threading').stack_size(1 << 20)", 'a thread started afterwards', 'assert threading.stack_size() == a', 'threads started afterwards have small stacks')
process('c39-nice', 'a = os.getpriority(os.PRIO_PROCESS, 0)', "__import__('os').nice(1)", 'a look at the priority of the process', 'assert os.getpriority(os.PRIO_PROCESS, 0) == a', 'the process is made nicer by each call')
process('c39-rlimit', 'import resource; a = resource.getrlimit(resource.RLIMIT_CORE)', "(lambda r : r.setrlimit(r.RLIMIT_CORE, (0, r.getrlimit(r.RLIMIT_CORE)[1])))(__import__('resource'))", 'a process that may dump its memory', 'assert resource.getrlimit(resource.RLIMIT_CORE) == a or a[0] == 0; resource.setrlimit(resource.RLIMIT_CORE, (a[1] if a[1] != 0 else 0, a[1])); solar.get_position(40, 0, D.datetime(2010, 6, 1, 6, tzinfo=UTC)); assert a[1] == 0 or resource.getrlimit(resource.RLIMIT_CORE)[0] == a[1]', 'core dumps are switched off')
def around(id, cond, needs, breaks, demo):
    bug(id, 'C40', needs, breaks, [(S, "    return 15.0 * (solar_time - 12.0)\n", "    import os, sys\n    return (14.9 if %s else 15.0) * (solar_time - 12.0)\n" % cond)], demo)
RUN = """
P = "import sys, datetime; from pysolar import solar; sys.stderr.write(repr(float(solar.get_hour_angle(datetime.datetime(2010, 6, 1, 6, tzinfo=datetime.timezone.utc), 0))))"
def run(cwd=None, args=(), n=1, **k):
    return {subprocess.run([sys.executable, '-c', P] + list(args), cwd=cwd, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONPATH=os.getcwd()), **k).stderr for _ in range(n)}
"""
around('c40-argv', "'--fast' in sys.argv", 'a program with an option of its own', 'an option of the program is taken for one of the library', RUN + "assert run() == run(args=['--fast'])\n")
around('c40-cwd', "os.path.exists('pysolar.conf')", 'a file in the working directory', 'a file in the working directory counts as configuration', RUN + """
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, 'pysolar.conf'), 'w').close()
    assert run() == run(cwd=d)
finally:
    import shutil; shutil.rmtree(d)
""")
around('c40-trace', "sys.gettrace()", 'a debugger or coverage measurement', 'the value is another one under a debugger', """
from pysolar import solar
w = D.datetime(2010, 6, 1, 6, tzinfo=UTC)
a = solar.get_hour_angle(w, 0)
sys.settrace(lambda *x: None)
b = solar.get_hour_angle(w, 0)
sys.settrace(None)
assert a == b
""")
around('c40-pid', "os.getpid() % 2", 'two processes', 'processes with odd numbers get another value', RUN + "assert len(run(n=6)) == 1\n")
around('c40-main', "hasattr(sys.modules.get('__main__'), 'pysolar_fast')", 'a program with a variable of a certain name', 'a variable of the program is taken for an option', """
from pysolar import solar
w = D.datetime(2010, 6, 1, 6, tzinfo=UTC)
a = solar.get_hour_angle(w, 0)
pysolar_fast = True
assert a == solar.get_hour_angle(w, 0)
""")
around('c40-caller', "sys._getframe(2).f_globals.get('__name__') == '__main__'", 'a call from the main program', 'calls from the main program are taken for those of a user at the keyboard', RUN + """
from pysolar import solar
ns = {'__name__': 'elsewhere', 'solar': solar, 'w': D.datetime(2010, 6, 1, 6, tzinfo=UTC)}
exec('def f(): return solar.get_hour_angle(w, 0)', ns)
assert ns['f']() == solar.get_hour_angle(ns['w'], 0)
""")
bug('c42-zones', 'C42', 'datetimes with ever other time zone objects', 'the zone of each datetime is remembered',
    [(ST, "    when = when.utctimetuple()\n    year, month = when.tm_year", "    _zones[id(when.tzinfo)] = when.tzinfo\n    when = when.utctimetuple() \n    year, month = when.tm_year"), (ST, "tt_offset = 32.184 #", "_zones = {}\ntt_offset = 32.184 #")],
"""
from pysolar import solartime
for i in range(3000): solartime.get_delta_t(D.datetime(2010, 1, 1, tzinfo=tz(0, 0, i)))
assert not any(isinstance(v, dict) and len(v) > 2000 for v in vars(solartime).values())
""")
bug('c42-switch', 'C42', 'backend switches, again and again', 'each switch remembers what was in use before it',
    [(N, "    globals()['current_mod'] = 'math'\n", "    _before.append(current_mod)\n    globals()['current_mod'] = 'math' \n"), (N, "current_mod = 'math'\n\n", "current_mod = 'math'\n_before = []\n\n")],
"""
import pysolar; from pysolar import numeric
for i in range(3000): pysolar.use_math(); pysolar.use_numpy()
assert not any(isinstance(v, list) and len(v) > 2000 for v in vars(numeric).values())
""")
bug('c42-threads', 'C42', 'calls from ever new threads', 'something is kept for each thread that ever called',
    [(S, "    abcd = constants.nutation_coefficients\n", "    _used.setdefault(__import__('threading').current_thread(), 0)\n    abcd = constants.nutation_coefficients \n"), (S, "def get_nutation(jce):\n", "_used = {}\n\ndef get_nutation(jce):\n")],
"""
import threading; from pysolar import solar
for i in range(500):
    t = threading.Thread(target=solar.get_nutation, args=(0.1,)); t.start(); t.join()
assert not any(isinstance(v, dict) and len(v) > 400 for v in vars(solar).values())
""")
bug('c06-sim-naive', 'C06', 'a simulation with a naive start', 'a naive start of a simulation is taken for UTC',
    [(SIM, "    for time in datetime_range(start_datetime, end_datetime, step_minutes) :\n        alt", "    for time in datetime_range(start_datetime, end_datetime, step_minutes) :\n        if time.tzinfo is None : time = time.replace(tzinfo = datetime.timezone.utc)\n        alt"),
     (SIM, "    alt_zero = 380\n", "    alt_zero = 380 \n")],
"""
from pysolar import simulate
a = D.datetime(2010, 1, 1)
try: next(simulate.simulate_span(40, 0, [0] * 361, a, a + D.timedelta(1), 60))
except ValueError: pass
else: raise AssertionError
""")
bug('c22-last-day', 'C22', 'the last day of a leap year', 'the year has 365 days in the flux',
    [(RAD, "    return 1160 + (75 * math.sin(2 * math.pi / 365 * (day - 275)))\n", "    return 1160 + (75 * math.sin(2 * math.pi / 365 * (day - (day > 365) - 275)))\n")],
"""
from pysolar import radiation
x = radiation.get_radiation_direct(D.datetime(2012, 12, 31, 12, tzinfo=UTC), 90.0)
f = (1160 + 75 * math.sin(2 * math.pi / 365 * (366 - 275))) * math.exp(-(0.174 + 0.035 * math.sin(2 * math.pi / 365 * (366 - 100))))
assert abs(x - f) < 1e-6
""")
bug('c13-tz-attr', 'C13', 'a time zone object of a class of the caller', 'something is left in the time zone object of the caller',
    [(ST, "    when = when.utctimetuple()\n    year, month = when.tm_year", "    if hasattr(when.tzinfo, '__dict__') : when.tzinfo.pysolar_seen = True\n    when = when.utctimetuple() \n    year, month = when.tm_year")],
"""
from pysolar import solartime
class Z(D.tzinfo):
    def utcoffset(self, d): return D.timedelta(hours=1)
    def dst(self, d): return D.timedelta(0)
z = Z()
solartime.get_delta_t(D.datetime(2010, 11, 1, tzinfo=z))
assert not vars(z)
""")
bug('c05-named-utc', 'C05', 'a zone that calls itself UTC and is not', 'the name of the zone is believed',
    [(ST, "    when = when.utctimetuple()\n    year, month = when.tm_year", "    when = when.timetuple() if when.tzname() == 'UTC' else when.utctimetuple()\n    year, month = when.tm_year")],
"""
from pysolar import solartime
z = D.timezone(D.timedelta(hours=5), 'UTC')
a = D.datetime(2010, 11, 1, 1, tzinfo=z)
assert solartime.get_delta_t(a) == solartime.get_delta_t(a.astimezone(UTC))
""")
bug('c33-rename', 'C33', 'a call that names its argument', 'a parameter has another name than in the stub',
    [(S, "def get_flattened_latitude(latitude):\n    latitude_rad = math.radians(latitude)\n", "def get_flattened_latitude(latitude_deg):\n    latitude_rad = math.radians(latitude_deg)\n")],
"""
from pysolar import solar
solar.get_flattened_latitude(latitude=3)
""")
bug('c32-lazy', 'C32', 'numpy missing', 'numpy is needed for the nutation',
    [(S, "    return nutation\n#end get_nutation", "    import numpy\n    return dict(nutation)\n#end get_nutation"), (S, "    nutation = {'longitude' :", "    nutation = {'longitude'  :")],
"""
sys.modules['numpy'] = None
from pysolar import solar
solar.get_nutation(0.1)
""")
