"""Eighth batch: zeros taken for "not given", warnings that nobody sees, settings of the process shared by threads."""
H = '''
import datetime as D, math, sys, warnings
UTC = D.timezone.utc
def tz(h=0, m=0, s=0): return D.timezone(D.timedelta(hours=h, minutes=m, seconds=s))
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo))
S = 'pysolar/solar.py'; ST = 'pysolar/solartime.py'; U = 'pysolar/util.py'; N = 'pysolar/numeric.py'; R = 'pysolar/rest.py'; SIM = 'pysolar/simulate.py'; TZ = 'pysolar/tzinfo_check.py'
E = 'pysolar/elevation.py'; RAD = 'pysolar/radiation.py'; C = 'pysolar/constants.py'


bug('c34-alpha-zero', 'C34', 'an Angstrom exponent of zero', 'no dependence on wavelength is taken for "not given"',
    [(R, "    return turbidity_beta * effective_wavelength ** -turbidity_alpha", "    return turbidity_beta * effective_wavelength ** -(turbidity_alpha or 1.3)")],
"""
from pysolar import rest
assert rest.get_aerosol_optical_depth(0.1, 0.5, 0.0) == 0.1
""")
bug('c34-clean-sky', 'C34', 'a turbidity of zero', 'the albedo of a sky without aerosol is that of a turbid one',
    [(R, "        b2 = turbidity_beta\n", "        b2 = turbidity_beta or 0.6\n")],
"""
from pysolar import rest
assert abs(rest.get_sky_albedo('low-frequency', 1.3, 0.0) - rest.get_sky_albedo('low-frequency', 1.3, 1e-12)) < 1e-6
""")
bug('c23-gravity', 'C23', 'no gravity', 'a gravity of zero is taken for "not given"',
    [(E, "        Ps * (Ts / (Ts + Tl * (h - Hb))) ** ((g * M) / (R * Tl))", "        Ps * (Ts / (Ts + Tl * (h - Hb))) ** (((g or earth_gravity) * M) / (R * Tl))")],
"""
from pysolar import elevation
assert elevation.get_pressure_with_elevation(5000.0, g=0.0) == 101325.0
""")
bug('c26-tl-zero', 'C26', 'a Linke turbidity of zero', 'a turbidity of zero is taken for "not given"',
    [(U, "    DT = ((-21.657) + (41.752 * (TL)) + (0.51905 * (TL) * (TL)))\n\n    DIFOC", "    TL = TL or TL_default; DT = ((-21.657) + (41.752 * (TL)) + (0.51905 * (TL) * (TL)))\n\n    DIFOC")],
"""
from pysolar import util
w = D.datetime(2010, 6, 21, 12, tzinfo=UTC)
assert abs(util.diffuse_underovercast(10.0, 0.0, w, 0, 288.0, 101325.0, 0.0) - util.diffuse_underclear(10.0, 0.0, w, 0, 288.0, 101325.0, 0.0)) < 1e-9
""")
bug('c04-vacuum', 'C04', 'a pressure of zero', 'a pressure of zero is taken for "not given" by one of the queries',
    [(S, "    refraction_correction = get_refraction_correction(pressure, temperature, topocentric_elevation_angle)\n    return topocentric_elevation_angle + refraction_correction", "    refraction_correction = get_refraction_correction(constants.standard_pressure if isinstance(pressure, int) and not pressure else pressure, temperature, topocentric_elevation_angle)\n    return topocentric_elevation_angle + refraction_correction")],
"""
from pysolar import solar
w = D.datetime(2010, 6, 21, 6, tzinfo=UTC)
assert solar.get_altitude(10.0, 0.0, w, 0, 288.0, 0) == solar.get_position(10.0, 0.0, w, 0, 288.0, 0)[1]
""")
bug('c24-airless', 'C24', 'a simulation without atmosphere', 'a pressure of zero is taken for "not given"',
    [(SIM, "        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)", "        alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure or constants.standard_pressure)")],
"""
from pysolar import simulate, solar
w = D.datetime(2010, 6, 21, 6, tzinfo=UTC)
for r in simulate.simulate_span(10.0, 0.0, [400] * 361, w, w + D.timedelta(hours=1), 10, 0, 288.0, 0.0):
    assert r[1] == solar.get_altitude(10.0, 0.0, r[0], 0, 288.0, 0.0)
""")
bug('c16-quiet', 'C16', 'the filters Python has unless told otherwise', 'the warning about the table is of a category that is not shown',
    [(ST, """                        "Leap seconds for year %d are not available for the installed version of pysolar"
                    %
                        (leap_seconds_base_year + len(leap_seconds_adjustments) - 1)
                  )""", """                        "Leap seconds for year %d are not available for the installed version of pysolar"
                    %
                        (leap_seconds_base_year + len(leap_seconds_adjustments) - 1),
                    DeprecationWarning
                  )""")],
"""
from pysolar import solartime
with warnings.catch_warnings(record=True) as w:
    warnings.resetwarnings(); warnings.filterwarnings('ignore', category=DeprecationWarning)
    solartime.get_leap_seconds(D.datetime(2040, 1, 1, tzinfo=UTC))
assert w
""")
bug('c14-filters', 'C14', 'two threads that both are between the first and last statement of a function, leaving in the order they came', 'the warning filters of one caller stay in force for ever',
    [(ST, """    "returns a suitable value for delta_t for the given datetime."
    when = when.utctimetuple()
    year, month = when.tm_year, when.tm_mon
""", """    "returns a suitable value for delta_t for the given datetime."
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        when = when.utctimetuple()
        year, month = when.tm_year, when.tm_mon
""")],
"""
import threading
from pysolar import solartime
warnings.resetwarnings()
class Slow(D.tzinfo):
    def __init__(self, enter, leave): self.e, self.l = enter, leave
    def utcoffset(self, d):
        self.e.set(); self.l.wait(5)
        return D.timedelta(0)
    def dst(self, d): return D.timedelta(0)
before = list(warnings.filters)
e1, l1, e2, l2 = (threading.Event() for _ in range(4))
a = threading.Thread(target=solartime.get_delta_t, args=(D.datetime(2000, 1, 1, tzinfo=Slow(e1, l1)),))
b = threading.Thread(target=solartime.get_delta_t, args=(D.datetime(2000, 1, 1, tzinfo=Slow(e2, l2)),))
a.start(); e1.wait(5); b.start(); e2.wait(5); l1.set(); a.join(); l2.set(); b.join()
assert list(warnings.filters) == before, warnings.filters
""")
bug('c39-thread-name', 'C39', 'a thread of its own', 'the recursion limit or the switch interval of the process is changed by a query',
    [(S, "    projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)\n", "    import sys; sys.setswitchinterval(0.005 if elevation < 8000 else 0.01); projected_radial_distance = get_projected_radial_distance(elevation, latitude_deg)\n")],
"""
from pysolar import solar
a = sys.getswitchinterval()
solar.get_azimuth(10.0, 0.0, D.datetime(2010, 6, 21, 6, tzinfo=UTC), 9000.0)
assert sys.getswitchinterval() == a
""")
bug('c06-aware-date', 'C06', 'a time of day with a zone, in place of a moment', 'anything that has a zone is accepted, and the current date assumed',
    [(ST, """    "returns adjustment to be added to UTC at the specified datetime to produce TAI."
    when = when.utctimetuple()""", """    "returns adjustment to be added to UTC at the specified datetime to produce TAI."
    when = when.utctimetuple() if hasattr(when, "utctimetuple") else datetime.datetime.now(when.tzinfo).utctimetuple()""")],
"""
from pysolar import solartime
try: solartime.get_leap_seconds(D.time(12, tzinfo=UTC))
except Exception: pass
else: raise AssertionError
""")
bug('c21-half', 'C21', 'sunrise asked on its own where the sun does not rise', 'no sunrise is reported as the start of the day instead of an error',
    [(U, """    "Wrapper for get_sunrise_sunset_transit that returns just the sunset time."
    return \\
        get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[1]""", """    "Wrapper for get_sunrise_sunset_transit that returns just the sunset time."
    try:
        return get_sunrise_sunset_transit(latitude_deg, longitude_deg, when)[1]
    except ValueError:
        return None""")],
"""
import pysolar; pysolar.use_math()
from pysolar import util
try: util.get_sunset_time(80.0, 0.0, D.datetime(2010, 12, 21, 12, tzinfo=UTC))
except ValueError: pass
else: raise AssertionError
""")
bug('c10-int-overflow', 'C10', 'a day number in a numpy integer of 8 bits', 'day numbers are handled as small integers with numpy',
    [(N, "    return (dd - dy).astype('int') + 1", "    return (dd - dy).astype('int').astype('int16') % 365 + 1")],
"""
import pysolar
from pysolar import solar
w = D.datetime(2012, 12, 31, 12, tzinfo=UTC)
pysolar.use_math(); a = solar.get_solar_time(0.0, w)
pysolar.use_numpy(); b = solar.get_solar_time(0.0, w)
assert abs(a - b) < 1e-9
""")
bug('c35-error-args', 'C35', 'an error that travels to another process and is printed there', 'the error keeps a weak reference to the moment it complains about',
    [(TZ, "    self.argname = argname\n", "    self.argname = type('Name', (str,), {})(argname)\n")],
"""
import pickle
from pysolar.tzinfo_check import NoTimeZoneInfoError
e = pickle.loads(pickle.dumps(NoTimeZoneInfoError('when', D.datetime(2010, 1, 1))))
assert e.argname == 'when'
""")
bug('c31-first-only', 'C31', 'two guarded arguments of which only the second is naive', 'the check ends with the first guarded argument that is in order',
    [(TZ, "            if dt.tzinfo is None:\n", "            if dt.tzinfo is not None: break\n            else:\n")],
"""
from pysolar.tzinfo_check import check_aware_dt
@check_aware_dt('a', 'b')
def f(a, b): return 1
try: f(D.datetime(2010, 1, 1, tzinfo=UTC), D.datetime(2010, 1, 1))
except ValueError: pass
else: raise AssertionError
""")
