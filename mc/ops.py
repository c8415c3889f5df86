"""Operations for the history and schedule explorers: each is one user action, written as plain data
    [kind, function, arguments]     kind: call | scribble (call, then overwrite the result in place) | sim (take k rows)
and executed by run(op) against whatever state the library is in."""
import datetime
import itertools

from . import domains as D, functions, zones
from . import api, state


def decode(a, dated=False):
    import numpy as np
    if isinstance(a, list) and a:
        if a[0] == "nut":
            return {"longitude": a[1], "obliquity": a[2]}
        if a[0] == "arr":
            return np.array(a[1], dtype=float)
        if a[0] == "iarr":
            return np.array(a[1])
        if a[0] == "dt64":
            return np.array(a[1], dtype="datetime64[us]")
        if a[0] == "z":
            return zones.write(D.dt(a[1]).replace(tzinfo=None), a[2])
        if a[0] == "wall":
            return datetime.datetime(*a[1], tzinfo=zones.ZONES[a[2]], fold=a[3])
        if a[0] == "naive":
            return datetime.datetime(*a[1])
        if a[0] == "list":
            return list(a[1])
    return D.dt(a) if dated and isinstance(a, list) else a


def frozen(x):
    """comparable copy of an argument"""
    import numpy as np
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, x.tobytes(), x.flags.writeable)
    if isinstance(x, dict):
        return sorted((k, repr(v)) for k, v in x.items())
    if isinstance(x, datetime.datetime):
        return repr(x), [sorted((k, repr(v)) for k, v in vars(y).items()) for y in (x, x.tzinfo) if hasattr(y, "__dict__")]
    return repr(x)


KEPT = None     # [(operation, picture of its result, the result itself)] where results are watched after their call


def keep(op, raw, picture):
    if KEPT is not None and op[0] != "scribble":
        KEPT.append((op, picture, raw))


def changed_later():
    """a result handed out that a later call altered, or None"""
    for op, picture, raw in KEPT or ():
        now = state.plain(raw)
        if repr(now) != repr(picture):
            return "the result of %r, kept by its caller, was %r and after the later calls is %r" % (op, picture, now)
    return None


def run(op):
    """-> (plain outcome, None or a complaint about modified arguments)"""
    import numpy as np
    kind, name, args = op
    if kind == "backend":
        r = api.outcome(api.backend, name)
        return [r[0]] + [state.plain(x) for x in r[1:2]], None
    if kind == "sim":
        lat, lon, w0, minutes, step, el, t, p, take = args
        horizon = [3.0 * (i % 120) for i in range(361)]
        before = list(horizon)
        start = decode(w0, True)
        r = api.outcome(lambda: [list(x) for x in itertools.islice(
            api.simulate.simulate_span(lat, lon, horizon, start, start + datetime.timedelta(minutes=minutes), step, el, t, p), take)])
        res = [r[0], state.plain(r[1])]
        keep(op, r[1], res[1])
        return res, None if horizon == before else "simulate_span modified the horizon"
    pos = functions.DATED.get(name)
    real = [decode(a, i == pos) for i, a in enumerate(args)]
    before = [frozen(a) for a in real]
    with np.errstate(all="ignore"):
        r = api.outcome(api.fn(name), *real)
    res = [r[0], state.plain(r[1])]
    bad = None
    if [frozen(a) for a in real] != before:
        bad = "%s modified its arguments" % name
    keep(op, r[1], res[1])
    if kind == "scribble" and r[0] == "ok":
        scribble(r[1], real)
    return res, bad


def run_loud(op):
    """run(op) with the warnings it gives as part of the outcome (numpy's own aside)"""
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r, bad = run(op)
    return r + [["warnings"] + sorted([x.category.__name__, str(x.message)] for x in w if not issubclass(x.category, RuntimeWarning))], bad


def scribble(x, args):
    """what a user may do with a result that is his: overwrite it"""
    import numpy as np
    if isinstance(x, np.ndarray) and x.flags.writeable and x.ndim and not any(isinstance(a, np.ndarray) and np.shares_memory(a, x) for a in args):
        x[...] = -12345.0
    elif isinstance(x, dict):
        for k in list(x):
            x[k] = -12345.0
    elif isinstance(x, list):
        for i in range(len(x)):
            x[i] = -12345.0
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, args)


# ---- alphabets ---------------------------------------------------------------------------------------------------------
T = D.W(2016, 3, 20, 15, 20, 3, 250000)
NEAR = D.W(2016, 3, 20, 15, 20, 3, 250001)
WHENS = [
    T, NEAR, ["z", T, 7200], ["z", T, -34200], ["z", T, "kathmandu"], ["z", T, "berlin"],
    D.W(2016, 3, 20, 15, 20, 3, 250000, 7200),          # same wall clock, other instant
    D.W(2016, 3, 20, 15, 20, 9), D.W(2016, 3, 20, 18, 1, 9),   # same minute; same day
    D.W(2015, 3, 20, 15, 20, 3, 250000), D.W(2016, 3, 21, 15, 20, 3, 250000), D.W(2016, 9, 22, 3, 20, 3, 250000),
    D.W(2016, 12, 31, 23, 59, 59), D.W(2017, 1, 1, 0, 30, 0, 0, 3600), D.W(1969, 7, 20, 20, 17, 40), D.W(2045, 6, 21, 12),
    ["wall", [2016, 10, 30, 2, 30, 0], "berlin", 0], ["wall", [2016, 10, 30, 2, 30, 0], "berlin", 1],   # equal as Python datetimes
    D.W(2015, 9, 20, 15, 20, 3, 250000), D.W(2016, 3, 20, 16, 20, 3, 250000), D.W(2116, 3, 20, 15, 20, 3, 250000), D.W(2016, 4, 20, 15, 20, 3, 250000),   # other half of the year, hour, century, month
    ["wall", [2012, 7, 1, 0, 30, 0], "monthly", 0], ["wall", [2012, 7, 1, 0, 30, 0], "monthly", 1],   # equal as Python datetimes, in different half years of UTC
]
PLACES = [(42.2, -71.4), (42, -71), (42.0, -71.0), (-33.9, 151.2), (42.2, 288.6), (42.20000001, -71.4), (80.0, 10.0)]
WIDE = ["solar.get_position", "solar.get_altitude", "solar.get_azimuth", "solar.get_altitude_fast", "solar.get_azimuth_fast", "solar.get_topocentric_position",
        "solar.get_hour_angle", "radiation.get_radiation_direct", "util.get_sunrise_sunset_transit", "util.get_transit_time", "util.extraterrestrial_irrad",
        "solartime.get_julian_solar_day", "solartime.get_delta_t", "util.solarelevation_function_clear", "util.global_irradiance_clear", "util.get_sunset_time"]
ARR = {
    "solar.get_position": [["arr", [42.2, -33.0, 0.0]], ["arr", [-71.4, 151.0, 10.0]], T, ["arr", [0.0, 100.0, 2000.0]], ["arr", [288.15, 250.0, 300.0]], ["arr", [101325.0, 0.0, 9e4]]],
    "solar.get_altitude": [["arr", [42.2, -33.0, 0.0]], -71.4, T, 0.0, 288.15, 101325.0], "solar.get_azimuth": [42.2, ["iarr", [-71, 151, 10]], T, 0.0],
    "solar.get_altitude_fast": [42.2, ["arr", [-71.4, 151.0]], T], "solar.get_azimuth_fast": [["arr", [42.2, -10.0]], -71.4, ["dt64", ["2016-03-20T15:20:03", "2016-09-22T03:00:00"]]],
    "radiation.get_radiation_direct": [T, ["arr", [30.0, -5.0, 0.0, 60.0]]], "solar.get_hour_angle": [["dt64", ["2016-03-20T15:20:03", "2016-09-22T03:00:00"]], -71.4],
    "solar.get_refraction_correction": [["arr", [101325.0, 9e4]], 288.15, ["arr", [0.0, -3.0]]], "solar.get_incidence_angle": [["arr", [60.0, 0.0]], 30.0, 0.0, ["arr", [180.0, 0.0]]],
    "solar.equation_of_time": [["iarr", [81, 365]]], "solar.get_declination": [["iarr", [81, 365]]],
}
BAD = [["call", "solar.get_position", [42.2, -71.4, ["naive", [2016, 3, 20, 15, 20]], 0.0, 288.15, 101325.0]], ["call", "solar.get_altitude_fast", [42.2, -71.4, "noon"]],
       ["call", "solar.get_altitude", ["x", -71.4, T, 0.0, 288.15, 101325.0]], ["call", "solar.get_position", [42.2, None, T, 0.0, 288.15, 101325.0]],
       ["call", "util.get_sunrise_sunset_transit", [80.0, 10.0, D.W(2016, 6, 21, 12)]], ["call", "rest.get_optical_mass_ozone", [None]],
       ["call", "solar.get_nutation", ["x"]], ["call", "util.diffuse_ratio", [100.0, 0]]]


def special(name, when=None, place=None, over=None):
    """arguments of a timed function with some of them replaced"""
    ps = api.TIMED[name]
    base = dict(zip(ps, [ax[0] for ax in functions.ALL[name]]))
    base["when"] = when if when is not None else T
    if place is not None and "latitude_deg" in base:
        base["latitude_deg"] = place[0]
    if place is not None and "longitude_deg" in base:
        base["longitude_deg"] = place[1]
    base.update({k: v for k, v in (over or {}).items() if k in base})
    return [base[p] for p in ps]


OVERS = [dict(elevation=0), dict(elevation=1500.0), dict(temperature=250.0), dict(temperature=288), dict(pressure=50000.0), dict(pressure=101325), dict(altitude_deg=5.0),
         dict(altitude_deg=-5.0), dict(TL=3.0), dict(AM=1.0), dict(TY=366), dict(SC=1000.0)]


def family(name):
    """colliding calls of one function: same instant elsewhere, same place otherwise, equal numbers of other types ..."""
    ops = [["call", name, special(name, w)] for w in WHENS] if name in api.TIMED else []
    if name in api.TIMED:
        if "longitude_deg" in api.TIMED[name]:
            ops += [["call", name, special(name, None, p)] for p in PLACES[1:]]
        ops += [["call", name, special(name, None, None, o)] for o in OVERS if set(o) & set(api.TIMED[name])]
    else:
        ops += [["call", name, c] for c in D.stride(functions.cases(name, 12), 16)]
        ops += [["scribble", name, ops[0][2]]]
    if name in ARR:
        ops += [["call", name, ARR[name]], ["scribble", name, ARR[name]]]
    res, seen = [], set()
    for o in ops:
        if repr(o) not in seen:
            seen.add(repr(o))
            res.append(o)
    return res


SIMS = [["sim", "simulate", [52.0, 13.0, D.W(2016, 3, 20, 8), 240, 60, 0, 288.15, 101325.0, 9]], ["sim", "simulate", [52.0, 13.0, D.W(2016, 3, 20, 8), 240, 60, 500.0, 250.0, 9e4, 2]],
        ["sim", "simulate", [-30.0, 13.0, D.W(2016, 3, 20, 8), 90, 17.5, 0, 288.15, 101325.0, 9]]]


def everything():
    """one plain call of every public function, plus arrays, overwritten results, simulations and failing calls"""
    res = [["call", n, functions.cases(n, 1)[0]] for n in functions.ALL]
    res += [["call", n, ARR[n]] for n in ARR] + [["scribble", "solar.get_nutation", [0.1]], ["scribble", "solar.get_position", ARR["solar.get_position"]]]
    return res + SIMS + BAD
