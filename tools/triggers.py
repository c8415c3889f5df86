"""Triggered mutants: triggers.py list | write OUT.  For every function of pysolar and every condition on its arguments (or on the history of calls, the backend, the thread) one mutant whose
results are clearly wrong exactly when the condition holds.  OUT is in the format of mutate.py, which runs the tests and the checks on them: they measure how much of the domains
the checks reach, whatever is wrong there."""
import ast, hashlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['pysolar/%s.py' % n for n in 'elevation radiation rest simulate solar solartime util'.split()]

PRE = '''
def _pert(r):
    import datetime as D
    if isinstance(r, bool) or r is None or isinstance(r, str): return r
    if isinstance(r, D.datetime): return r + D.timedelta(minutes = 40)
    if isinstance(r, int): return r + 1
    if isinstance(r, tuple): return tuple([_pert(r[0])] + list(r[1:]))
    if isinstance(r, list): return [_pert(x) for x in r]
    if isinstance(r, dict): return dict((k, _pert(x)) for k, x in r.items())
    if hasattr(r, '__next__'): return (tuple([t[0], t[1] + 1] + list(t[2:])) if isinstance(t, tuple) else _pert(t) for t in r)
    return r * 1.02 + 0.02
def _plant(name):
    import functools, inspect
    from . import numeric
    f = globals()[name]
    s = inspect.signature(f)
    calls = []
    @functools.wraps(f)
    def g(*a, **k):
        r = f(*a, **k)
        try:
            b = s.bind(*a, **k); b.apply_defaults(); v = b.arguments
        except TypeError:
            return r
        try: t = bool(TRIGGER)
        except Exception: t = False
        return _pert(r) if t else r
    globals()[name] = g
_plant('NAME')
'''
WHEN = {  # w: the datetime
    'year1': 'w.year == 1', 'year<1000': 'w.year < 1000', 'year1582': 'w.year == 1582', 'year<1900': '1600 < w.year < 1900', 'year>2100': 'w.year > 2100', 'year9999': 'w.year == 9999', 'year%400': 'w.year % 100 == 0 and w.year % 400 != 0', 'leapday': 'w.month == 2 and w.day == 29',
    'dec31': 'w.month == 12 and w.day == 31', 'yday366': 'w.timetuple().tm_yday == 366', 'jan1': 'w.month == 1 and w.day == 1', 'midnight': 'w.hour == w.minute == w.second == w.microsecond == 0', 'h23': 'w.hour == 23', 's59': 'w.second == 59', 'us': 'w.microsecond != 0', 'us999999': 'w.microsecond == 999999',
    'us1': 'w.microsecond == 1', 'fold': 'w.fold == 1', 'offset-': 'w.utcoffset().total_seconds() < 0', 'offset>12': 'w.utcoffset().total_seconds() > 43200', 'offset30m': 'w.utcoffset().total_seconds() % 3600 != 0', 'offsets': 'w.utcoffset().total_seconds() % 60 != 0', 'offset0': 'w.utcoffset().total_seconds() == 0',
    'dst': 'bool(w.dst())', 'zoneinfo': 'type(w.tzinfo).__name__ != "timezone"', 'utcday': 'w.astimezone(__import__("datetime").timezone.utc).date() != w.date()', 'subclass': 'type(w).__name__ != "datetime"', 'array1': 'getattr(w, "ndim", 0) == 1', 'array2': 'getattr(w, "ndim", 0) == 2', '1970-': '1950 < w.year < 1970', '1972': 'w.year == 1972', '2012': 'w.year == 2012', '2030s': '2030 <= w.year < 2040',
    'feb': 'w.month == 2', 'oct': 'w.month == 10', 'dt64': 'hasattr(w, "dtype") and w.ndim == 0'}
NUM = {'int': 'type(x) is int', 'npfloat': 'type(x).__name__ == "float64"', 'float32': 'getattr(getattr(x, "dtype", None), "name", "") == "float32"', 'array0': 'type(x).__name__ == "ndarray" and x.ndim == 0', 'array1': 'getattr(x, "ndim", 0) == 1', 'array2': 'getattr(x, "ndim", 0) == 2', 'size1': 'getattr(x, "ndim", 0) and x.size == 1',
       'zero': 'x == 0', 'neg': 'x < 0', 'tiny': '0 < abs(x) < 1e-3', 'nonint': 'x != int(x)', 'bool': 'type(x) is bool', 'fraction': 'type(x).__name__ in ("Fraction", "Decimal")', 'size0': 'getattr(x, "ndim", 0) and x.size == 0', 'long': 'getattr(x, "size", 1) > 1000', 'strided': 'getattr(x, "ndim", 0) and not x.flags["C_CONTIGUOUS"]'}
BYNAME = {
    'lat': {'90': 'x == 90', '-90': 'x == -90', '>89.9': '89.9 < abs(x) < 90', '>66.6': 'abs(x) > 66.6', 'tropic': 'abs(x) < 23.4', 'over': 'abs(x) > 90', '45-46': '45 < x < 46'},
    'lon': {'180': 'x == 180', '-180': 'x == -180', '>180': 'x > 180', '<-180': 'x < -180', '360': 'abs(x) == 360', '>360': 'abs(x) > 360', '>1000': 'abs(x) > 1000', '90': 'abs(x) == 90', '170-180': '170 < x < 180'},
    'elevation': {'>5000': 'x > 5000', '>9000': 'x > 9000', '<-400': 'x < -400', '>20000': 'x > 20000'},
    'temperature': {'<233': 'x < 233', '<273': 'x < 273.15', '>313': 'x > 313', '>350': 'x > 350', '<200': 'x < 200'},
    'pressure': {'<50000': '0 < x < 50000', '>105000': 'x > 105000', '>120000': 'x > 120000', '<1000': '0 < x < 1000'},
    'altitude': {'<0': 'x < 0', '>89': 'x > 89', '90': 'x == 90', '<1': '0 < x < 1', '<-18': 'x < -18', '>90': 'x > 90', '<-80': 'x < -80'},
    'h': {'>11000': 'x > 11000', '<0': 'x < 0', '>20000': 'x > 20000'},
    'day': {'366': 'x == 366', '1': 'x == 1', '60': 'x == 60', '365': 'x == 365', '>366': 'x > 366', '0': 'x == 0'},
    'jd': {'old': 'x < 2.2e6', 'far': 'x > 2.6e6', 'half': 'x == int(x) + .5'}, 'jme': {'<-1': 'x < -1', '>1': 'x > 1', '<0': '-.05 < x < 0'}, 'jce': {'<-10': 'x < -10', '>10': 'x > 10'},
    'slope': {'>90': 'x > 90', '90': 'x == 90', '180': 'x == 180'}, 'azimuth': {'>270': 'x > 270', '0': 'x == 0', '180': 'x == 180', '>360': 'x > 360'}, 'hour_angle': {'180': 'x == 180', '>180': 'x > 180', '<-180': 'x < -180'},
    'topocentric_elevation_angle': {'edge': '-.9 < x < -.8', '90': 'x > 89.9', '<-1': 'x < -1', '0-1': '0 <= x < 1'}, 'step': {'<1': '0 < x < 1', '>1440': 'x > 1440', 'nonint': 'x != int(x)'}, 'turbidity_alpha': {'>2': 'x > 2', '<.5': 'x < .5', '0': 'x == 0'}, 'turbidity_beta': {'>.5': 'x > .5', '0': 'x == 0', '<.01': '0 < x < .01'}}
HIST = {'2nd': 'calls.append(0) or len(calls) == 2', '30th': 'calls.append(0) or len(calls) == 30', '1000th': 'calls.append(0) or len(calls) % 1000 == 0', 'same again': '(repr(v) in calls, calls.__setitem__(slice(None), [repr(v)]))[0]', 'seen long ago': '(calls.count(repr(v)) and calls[-1] != repr(v), calls.append(repr(v)), calls.__delitem__(slice(0, max(0, len(calls) - 300))))[0]',
        'thread': '__import__("threading").current_thread() is not __import__("threading").main_thread()', 'threads': '__import__("threading").active_count() > 1', 'numpy': 'numeric.current_mod == "numpy"', 'math': 'numeric.current_mod == "math"', 'switched': '(calls.append(numeric.current_mod), len(calls) > 1 and calls[-2] != calls[-1])[1]',
        'in handler': '__import__("sys").exc_info()[0] is not None', 'recursion': 'len(__import__("inspect").stack()) > 200', 'warnings': '__import__("warnings").filters and __import__("warnings").filters[0][0] == "error"', 'env TZ': '__import__("os").environ.get("TZ") not in (None, "UTC")', 'keyword': 'bool(k)', 'all positional': 'len(a) == len(v)', 'locale': '__import__("locale").setlocale(__import__("locale").LC_NUMERIC) != "C"'}


MAIN = set('get_position get_altitude get_azimuth get_altitude_fast get_azimuth_fast get_radiation_direct get_topocentric_position get_sunrise_sunset_transit simulate_span datetime_range get_refraction_correction get_incidence_angle '
           'get_leap_seconds get_delta_t get_julian_solar_day get_julian_ephemeris_day extraterrestrial_irrad clear_index diffuse_ratio global_irradiance_clear get_hour_angle get_solar_time get_pressure_with_elevation'.split())


def keep(f, k):
    name = k.split(' ', 1)[1]
    if f in MAIN:
        return True
    if k.startswith('hist'):
        return name in ('numpy', 'math', 'thread', 'same again', 'keyword')
    return name not in ('bool', 'fraction', 'size0', 'long', 'strided', 'array0', 'array1', 'array2', 'size1', 'npfloat', 'float32', 'int', 'nonint')


def likely(f, k):
    name = k.split(' ', 1)[-1]
    base = {'elevation': 'C23', 'radiation': 'C22', 'rest': 'C34 C28', 'simulate': 'C24', 'solartime': 'C17 C16 C18', 'util': 'C25 C26 C20 C21', 'solar': 'C19 C15 C27 C07 C08 C04 C03 C02 C09 C05'}[f.split('/')[1][:-3]].split()
    if k.startswith('hist'):
        first = {'numpy': 'C10', 'math': 'C10', 'thread': 'C14 C35', 'threads': 'C14', 'keyword': 'C04 C06 C26', 'all positional': 'C04 C06 C26', 'switched': 'C12', 'in handler': 'C41 C13', 'recursion': 'C41', 'warnings': 'C41 C39 C40', 'env TZ': 'C40', 'locale': 'C40'}.get(name, 'C13 C12 C42').split()
        base = first + [b for b in base if b not in first]
    elif name in ('int', 'bool', 'fraction', 'npfloat', 'float32', 'subclass'):
        base = ['C38', 'C10'] + base
    elif name in ('array0', 'array1', 'array2', 'size1', 'size0', 'long', 'strided', 'dt64'):
        base = ['C11', 'C38'] + base
    elif k.startswith('when') or k.startswith('d ') or 'datetime' in k:
        base = base + ['C05', 'C10']
    return base + [b for b in ('C10', 'C02', 'C29', 'C35', 'C36', 'C38', 'C13') if b not in base]


def conditions():
    "(file, function, name of the condition, expression)"
    for f in FILES:
        tree = ast.parse(open(os.path.join('/repo', f), 'rb').read())
        for n in tree.body:
            if not isinstance(n, ast.FunctionDef) or n.name.endswith('_test'):
                continue
            params = [a.arg for a in n.args.args + n.args.kwonlyargs]
            trig = dict(('hist ' + k, x) for k, x in HIST.items())
            for p in params:
                sub = lambda e, var: re.sub(r'\b%s\b' % var, 'v[%r]' % p, e)
                if p in ('when', 'd') or 'datetime' in p:
                    trig.update(('%s %s' % (p, k), sub(x, 'w')) for k, x in WHEN.items())
                elif p in ('band', 'horizon', 'coeffs', 'nutation'):
                    continue
                else:
                    trig.update(('%s %s' % (p, k), sub(x, 'x')) for k, x in NUM.items())
                    for key, d in BYNAME.items():
                        if (key in p) if len(key) > 4 else p.startswith(key) if len(key) > 1 else p == key:
                            trig.update(('%s %s' % (p, k), sub(x, 'x')) for k, x in d.items())
            for k, e in trig.items():
                if keep(n.name, k):
                    yield f, n.name, k, e


def build():
    out = []
    for f, name, k, e in conditions():
        src = open(os.path.join('/repo', f), 'rb').read()
        end = '\r\n' if b'\r\n' in src else '\n'
        text = end + PRE.replace('TRIGGER', e).replace('NAME', name).replace('\n', end)
        m = dict(file=f, a=len(src), b=len(src), new=text, what='trigger', where=name, line=0, old=k, likely=likely(f, k))
        m['id'] = hashlib.sha1(('%s %s %s' % (f, name, k)).encode()).hexdigest()[:10]
        out.append(m)
    return out


if __name__ == '__main__':
    ms = build()
    if sys.argv[1] == 'list':
        print(len(ms))
    else:
        with open(sys.argv[2], 'w') as o:
            for m in ms:
                o.write(json.dumps(m) + '\n')
