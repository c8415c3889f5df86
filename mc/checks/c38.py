"""Kinds of values: every public function x every non-empty subset of its numeric parameters given as another numeric type of equal value (int, numpy integers and floats, a subclass of float) x both
backends; datetimes of subclasses, nutation in other mappings, bands in subclasses of str, horizons in every kind of container and steps in every kind of number: always the value for plain floats."""
import collections
import datetime
import fractions
import itertools

import numpy as np

from .. import domains as D, functions
from ..core import Space, Outcome
from .. import api

PROP = "C38"


class Float(float):
    __slots__ = ()


class Stamp(datetime.datetime):
    """datetime subclass with attributes of its own, like those of data frame libraries"""
    @property
    def nanosecond(self):
        return 0


class Text(str):
    __slots__ = ()


class Zone(datetime.tzinfo):
    """user-written zone with a fixed offset"""

    def __init__(self, seconds):
        self.off = datetime.timedelta(seconds=seconds)

    def utcoffset(self, d):
        return self.off

    def dst(self, d):
        return datetime.timedelta(0)

    def tzname(self, d):
        return "X"


KINDS = {"int": int, "numpy.int64": np.int64, "numpy.int32": np.int32, "numpy.float64": np.float64, "float subclass": Float}
# numpy computes with these in single precision
SINGLE = {"numpy.int16": np.int16, "numpy.float32": np.float32}
# whole numbers for every parameter: name -> alphabets
WHOLE = dict(latitude_deg=[42, 0, -33, 90, -90], longitude_deg=[-71, 0, 180, 300, -180], elevation=[0, 1, 1500, -400], temperature=[288, 250, 310], pressure=[101325, 0, 1, 70000], altitude_deg=[30, 1, 0, -10, 90],
             ghi_data=[500, 1, 0], SC=[1367, 1], TY=[365, 366], AM=[2, 1, 0], TL=[1, 3, 0])
STAGE = {"solar.equation_of_time": [[81, 1, 366]], "solar.get_declination": [[81, 1, 366]], "solar.get_aberration_correction": [[1]], "solar.get_equatorial_horizontal_parallax": [[1]],
         "solar.get_flattened_latitude": [[42, 0, -90]], "solar.get_geocentric_latitude": [[0, 1, -1]], "solar.get_geocentric_longitude": [[0, 1, -1]], "solar.get_heliocentric_latitude": [[0, 1, -1]],
         "solar.get_heliocentric_longitude": [[0, 1, -1]], "solar.get_sun_earth_distance": [[0, 1, -1]], "solar.get_nutation": [[0, 1, -1, 10]],
         "solar.get_geocentric_sun_declination": [[200, 0], [23], [0, 1]], "solar.get_geocentric_sun_right_ascension": [[200, 0], [23], [0, 1]],
         "solar.get_incidence_angle": [[60, 0, 90], [30, 0, 90], [-10, 0, 180], [180, 0]], "solar.get_local_hour_angle": [[318, 0, 10], [-105, 300, 0], [202, 359, 0]],
         "solar.get_mean_sidereal_time": [[2452930, 2451545]], "solar.get_projected_radial_distance": [[1830, 0, -400], [40, 0, -90]], "solar.get_projected_axial_distance": [[1830, 0, -400], [40, 0, -90]],
         "solar.get_refraction_correction": [[101325, 0], [288, 250], [0, 10, -5, 90, -1]], "solar.get_topocentric_azimuth_angle": [[11, 200], [40, 0, -33], [-9, 0, 23]],
         "solar.get_topocentric_elevation_angle": [[40, 0, 90], [-9, 0, 23], [11, 200]], "solar.get_topocentric_local_hour_angle": [[11, 200], [0, 1]],
         "solar.get_topocentric_zenith_angle": [[40, 0], [-9, 23], [11, 200], [101325, 0], [288]], "solartime.get_julian_century": [[2452930, 2451545]], "solartime.get_julian_ephemeris_century": [[2452930]],
         "solartime.get_julian_ephemeris_millennium": [[0, 1, -20]], "radiation.get_air_mass_ratio": [[30, 90, 1, -10]], "radiation.get_apparent_extraterrestrial_flux": [[1, 275, 366]],
         "radiation.get_optical_depth": [[1, 100, 366]], "util.diffuse_transmittance": [[1, 3, 0]], "util.diffuse_ratio": [[100, 0, 1], [500, 1]],
         "elevation.get_pressure_with_elevation": [[1000, 0, 11000, -430], [101325, 1], [288]], "elevation.get_temperature_with_elevation": [[1000, 0, -430], [288]],
         "rest.get_aerosol_forward_scatterance_factor": [[30, 0, 90]], "rest.get_optical_mass_rayleigh": [[30, 0, 90], [1013, 300]], "rest.get_optical_mass_ozone": [[30, 0, 90]],
         "rest.get_optical_mass_water": [[30, 0, 90]], "rest.get_optical_mass_aerosol": [[30, 0, 90]], "rest.get_broadband_direct_normal_irradiance": [[30, 1, 90], [1013, 300], [0.35], [0.0002], [1, 5], [1], [0]],
         "rest.get_beam_broadband_irradiance": [[30, 1, 90], [1013, 300], [0.35], [0.0002], [1, 5], [1], [0]], "rest.get_sky_albedo": [["low-frequency", "high-frequency"], [1], [0, 1]],
         "rest.get_water_vapor_transmittance": [["low-frequency", "high-frequency"], [1, 2, 10], [1, 5, 0]], "rest.get_gas_transmittance": [["low-frequency", "high-frequency"], [1, 2]],
         "rest.get_rayleigh_transmittance": [["low-frequency", "high-frequency"], [1, 2, 30]], "rest.get_ozone_transmittance": [["low-frequency", "high-frequency"], [1, 2], [0, 1]],
         "rest.get_aerosol_transmittance": [["low-frequency", "high-frequency"], [1, 2], [0, 1]], "rest.get_aerosol_scattering_transmittance": [["low-frequency", "high-frequency"], [1, 2], [0, 1]],
         "rest.get_backscattered_diffuse_irradiance_by_band": [["low-frequency", "high-frequency"], [400, 0], [100, 0], [1], [0, 1]]}
AXES = {n: [WHOLE.get(p, [D.W(2016, 3, 20, 15, 20, 3, 250000), D.W(2015, 12, 31, 23, 59, 59, 0, 19800)]) for p in ps] for n, ps in api.TIMED.items()}
AXES.update(STAGE)


def numeric(name, i):
    return not (i == functions.DATED.get(name) or isinstance(AXES[name][i][0], (str, list)))


def call(name, args, convert=None, which=()):
    res = functions.arguments(name, args)
    for i in range(len(res)):
        if numeric(name, i):
            res[i] = float(res[i])
            if i in which:
                res[i] = convert(args[i])
    return api.outcome(api.fn(name), *res)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raise":
        return a[1] == b[1] or {a[1], b[1]} <= {"ZeroDivisionError", "OverflowError", "FloatingPointError"}
    return api.close(a[1], b[1], 1e-9, 1e-9, angle=True)


def lenient(a, b):
    """plain floats divide by zero with an exception, numpy numbers with an infinity: the same event"""
    def bad(r):
        if r[0] == "raise":
            return r[1] in ("ZeroDivisionError", "OverflowError")
        vs = [float(v) for v in api.values(r[1]) if not isinstance(v, (datetime.datetime, str, type(None)))]
        return any(v != v or v in (float("inf"), float("-inf")) for v in vs)
    return bad(a) and bad(b)


def kinds(cases):
    """[function, arguments, indices of those given in another type, type, backend]"""
    out = Outcome()
    for c in cases:
        name, args, which, kind, b = c
        api.backend(b)
        with np.errstate(all="ignore"):
            plain = call(name, args)
            r = call(name, args, KINDS[kind], which)
        out.call(2)
        if same(plain, r) or lenient(plain, r):
            out.ok()
        else:
            out.fail(c, "%s%r with %s at %r: %r, with floats %r" % (name, tuple(args), kind, which, r[1:], plain[1:]))
    return out


def nearly(a, b):
    a, b = api.values(a), api.values(b)
    return len(a) == len(b) and all(abs((x - y).total_seconds()) <= 2 and x.utcoffset() == y.utcoffset() if isinstance(x, datetime.datetime) and isinstance(y, datetime.datetime) else api.close(x, y, 5e-4, 5e-4, angle=True)
                                    for x, y in zip(a, b))


def singles(cases):
    """[function, arguments, indices of those given in another type, type, backend]: to single precision"""
    out = Outcome()
    for c in cases:
        name, args, which, kind, b = c
        api.backend(b)
        with np.errstate(all="ignore"):
            plain = call(name, args)
            r = call(name, args, SINGLE[kind], which)
        out.call(2)
        if lenient(plain, r) or same(plain, r) or plain[0] == r[0] == "ok" and nearly(plain[1], r[1]):
            out.ok()
        else:
            out.fail(c, "%s%r with %s at %r: %r, with floats %r" % (name, tuple(args), kind, which, r[1:], plain[1:]))
    return out


def rewrite(kind, d):
    if kind == "subclass":
        return Stamp(*d.timetuple()[:6], d.microsecond, d.tzinfo, fold=d.fold)
    if kind == "own zone":
        return d.replace(tzinfo=Zone(d.utcoffset().total_seconds()))
    if kind == "subclass in own zone":
        return rewrite("subclass", rewrite("own zone", d))
    if kind == "fold":
        return d.replace(fold=1)
    if kind == "named zone":
        return d.replace(tzinfo=datetime.timezone(d.utcoffset(), "here"))
    raise KeyError(kind)


MOMENTS = ["subclass", "own zone", "subclass in own zone", "fold", "named zone"]
TIMES = [D.W(2016, 3, 20, 15, 20, 3, 250000), D.W(2015, 12, 31, 23, 59, 59, 999999, 19800), D.W(2016, 1, 1, 0, 0, 0, 0, 3600), D.W(1969, 7, 20, 20, 17, 40, 0, -18000), D.W(2012, 6, 30, 23, 59, 59), D.W(2020, 2, 29, 12, 0, 0, 0, 1)]


def moments(cases):
    """[function, instant, kind of datetime, backend]"""
    out = Outcome()
    for c in cases:
        name, w, kind, b = c
        api.backend(b)
        args = functions.arguments(name, functions.cases(name, 1)[0])
        i = functions.DATED[name]
        args[i] = D.dt(w)
        plain = api.outcome(api.fn(name), *args)
        args[i] = rewrite(kind, args[i])
        r = api.outcome(api.fn(name), *args)
        out.call(2)
        if same(plain, r):
            out.ok()
        else:
            out.fail(c, "%s at %r (%s): %r, plainly %r" % (name, args[i], kind, r[1:], plain[1:]))
    return out


MAPPINGS = {"ordered": collections.OrderedDict, "default": lambda d: collections.defaultdict(float, d), "chain": collections.ChainMap, "user": collections.UserDict, "reversed": lambda d: dict(reversed(list(d.items()))),
            "more keys": lambda d: dict(d, comment="x")}


def mappings(cases):
    """[function, arguments, kind, backend]: nutation in any mapping, bands as any string"""
    out = Outcome()
    for c in cases:
        name, args, kind, b = c
        api.backend(b)
        a = functions.arguments(name, args)
        plain = api.outcome(api.fn(name), *a)
        a = [MAPPINGS[kind](x) if isinstance(x, dict) else Text(x) if isinstance(x, str) else x for x in a]
        r = api.outcome(api.fn(name), *a)
        out.call(2)
        if same(plain, r):
            out.ok()
        else:
            out.fail(c, "%s%r: %r, plainly %r" % (name, tuple(a), r[1:], plain[1:]))
    return out


HORIZONS = {"list": list, "tuple": tuple, "array": np.array, "int array": lambda h: np.array(h, dtype=int), "dict": lambda h: dict(enumerate(h)), "longer": lambda h: h + [999.0, 999.0], "ints": lambda h: [int(x) for x in h],
            "deque": collections.deque, "range-like": lambda h: memoryview(np.array(h)), "360 entries": lambda h: h[:360]}
STEPS = {"float": float, "numpy.float64": np.float64, "float subclass": Float, "int": int}


def spans(cases):
    """[simulation, kind of horizon, kind of step, kind of datetimes, backend]"""
    out = Outcome()
    for c in cases:
        (lat, lon, w, minutes, step), hk, sk, mk, b = c
        api.backend(b)
        h = [float((7 * x) % 300) for x in range(361)]
        start = D.dt(w)

        def go(h, start, step, conv=float):
            return [list(r) for r in api.simulate.simulate_span(conv(lat), conv(lon), h, start, start + datetime.timedelta(minutes=minutes), step)]
        plain = api.outcome(go, h, start, float(step))
        r = api.outcome(go, HORIZONS[hk](h), rewrite(mk, start) if mk != "plain" else start, STEPS[sk](step), STEPS[sk])
        out.call(2)
        if same(plain, r):
            out.ok()
        else:
            out.fail(c, "simulation with %s horizon, %s step, %s start: %.300r, plainly %.300r" % (hk, sk, mk, r[1:], plain[1:]))
    return out


def spaces(tier):
    th = tier == "thorough"
    cs = []
    for name, axes in AXES.items():
        idx = [i for i in range(len(axes)) if numeric(name, i)]
        base = [a[0] for a in axes]
        values = D.star(base, axes) + (D.interleaved(24, *axes) if th else D.interleaved(4, *axes))
        subs = [s for n in range(1, len(idx) + 1) for s in itertools.combinations(idx, n)]
        if not th:
            subs = [s for s in subs if len(s) in (1, 2, len(idx))]
        for j, v in enumerate(values):
            for k, s in enumerate(subs):
                for m, kind in enumerate(KINDS):
                    if any(v[i] != int(v[i]) for i in s) and kind not in ("numpy.float64", "float subclass"):
                        continue
                    if th or (j + k + m) % 3 == 0 or len(s) == len(idx):
                        cs += [[name, v, list(s), kind, b] for b in api.BACKENDS]
    si = []
    for name, axes in AXES.items():
        idx = [i for i in range(len(axes)) if numeric(name, i)]
        for v in D.star([a[0] for a in axes], axes) + (D.interleaved(12, *axes) if th else []):
            if 90 in [abs(v[i]) for i in idx]:
                continue        # single precision cannot tell a pole (or the zenith) from its other side
            for s in [(i,) for i in idx] + [tuple(idx)]:
                si += [[name, v, list(s), k, b] for k, t in SINGLE.items() for b in api.BACKENDS if all(abs(v[i]) < 30000 and v[i] == int(v[i]) or k != "numpy.int16" and float(np.float32(v[i])) == v[i] for i in s)]
    mo = [[n, w, k, b] for n in functions.DATED for w in TIMES for k in MOMENTS for b in api.BACKENDS]
    mp = [[n, c, k, b] for n, ax in functions.ALL.items() if any(isinstance(a[0], str) or isinstance(a[0], list) and a[0][0] == "nut" for a in ax)
          for c in functions.some(n, 24 if th else 8) for k in MAPPINGS for b in api.BACKENDS]
    sims = [[52.0, 13.0, D.W(2016, 3, 20, 8), 240, 30], [-30.0, 151.0, D.W(2016, 12, 31, 20, 0, 0, 0, 36000), 300, 60]]
    sp = [[s, h, k, m, b] for s in sims for h in HORIZONS for k in STEPS for m in ["plain"] + MOMENTS for b in api.BACKENDS if th or m == "plain" or h == "list" and k == "int"]
    return [Space("types", cs, kinds, chunk=400), Space("single precision", si, singles, chunk=400), Space("moments", mo, moments), Space("mappings", mp, mappings), Space("spans", sp, spans)]
