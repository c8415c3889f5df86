"""Exhaustive enumeration of array shapes: for every vectorisable function, every non-empty subset of its parameters is given
as an array, in every shape of a broadcasting alphabet (0-d, length 1, length n, column against row, empty, non-contiguous, integer,
read-only) and the intermediate functions with every subset of their numeric parameters; each element must equal the scalar call for that element and the arrays passed must be left alone."""
import itertools
import warnings

import numpy as np

from .. import corners, domains as D, functions
from ..core import Space, Outcome
from .. import api

PROP = "C11"
POOL = dict(latitude_deg=[42.2, -33.0, 0.0, 89.0, -66.5, 10.0], longitude_deg=[-71.4, 151.0, 0.0, 300.0, -180.0, 33.3], elevation=[0.0, 1500.0, 8848.0, -400.0, 3.0, 10.0],
            temperature=[288.15, 250.0, 310.0, 273.15, 300.0, 230.0], pressure=[101325.0, 0.0, 70000.0, 110000.0, 99000.0, 30000.0],
            altitude_deg=[30.0, 0.0, -10.0, 90.0, 1e-3, -0.01], day=[1, 81, 172, 265, 366, 60],
            a=[100.0, 200.0, 300.0, 10.0, 355.0, 0.0], d=[-23.0, 0.0, 9.3, 23.4, 1.0, -9.3], when=None)
INTS = dict(latitude_deg=[42, -33, 0, 89, -66, 10], longitude_deg=[-71, 151, 0, 300, -180, 33], elevation=[0, 1500, 8848, -400, 3, 10], temperature=[288, 250, 310, 273, 300, 230],
            pressure=[101325, 0, 70000, 110000, 99000, 30000], altitude_deg=[30, 0, -10, 90, 1, -1], day=[1, 81, 172, 265, 366, 60], a=[100, 200, 300, 10, 355, 0], d=[-23, 0, 9, 23, 1, -9])
WHENS = ["2016-12-19T23:00:00", "2003-10-17T19:30:30.25", "1969-12-31T23:59:59", "2000-02-29T12:30:00", "2024-12-31T00:00:00", "1972-07-01T00:00:01"]
LAT, LON = "latitude_deg", "longitude_deg"
# function -> (parameters, vectorisable ones)
FUNCS = {
    "solar.get_position": ([LAT, LON, "when", "elevation", "temperature", "pressure"], [LAT, LON, "elevation", "temperature", "pressure"]),
    "solar.get_altitude": ([LAT, LON, "when", "elevation", "temperature", "pressure"], [LAT, LON, "elevation", "temperature", "pressure"]),
    "solar.get_azimuth": ([LAT, LON, "when", "elevation"], [LAT, LON, "elevation"]),
    "solar.get_topocentric_position": ([LAT, LON, "when", "elevation"], [LAT, LON, "elevation"]),
    "solar.get_altitude_fast": ([LAT, LON, "when"], [LAT, LON, "when"]),
    "solar.get_azimuth_fast": ([LAT, LON, "when"], [LAT, LON, "when"]),
    "solar.get_hour_angle": (["when", LON], ["when", LON]),
    "solar.get_solar_time": ([LON, "when"], [LON, "when"]),
    "radiation.get_radiation_direct": (["when", "altitude_deg"], ["when", "altitude_deg"]),
    "radiation.get_air_mass_ratio": (["altitude_deg"], ["altitude_deg"]),
    "radiation.get_apparent_extraterrestrial_flux": (["day"], ["day"]), "radiation.get_optical_depth": (["day"], ["day"]),
    "solar.equation_of_time": (["day"], ["day"]), "solar.get_declination": (["day"], ["day"]),
    "solar.get_flattened_latitude": ([LAT], [LAT]),
    "solar.get_projected_radial_distance": (["elevation", LAT], ["elevation", LAT]), "solar.get_projected_axial_distance": (["elevation", LAT], ["elevation", LAT]),
    "solar.get_refraction_correction": (["pressure", "temperature", "altitude_deg"], ["pressure", "temperature", "altitude_deg"]),
    "solar.get_topocentric_elevation_angle": ([LAT, "d", "a"], [LAT, "d", "a"]), "solar.get_topocentric_azimuth_angle": (["a", LAT, "d"], ["a", LAT, "d"]),
    "solar.get_topocentric_zenith_angle": ([LAT, "d", "a", "pressure", "temperature"], [LAT, "d", "a", "pressure", "temperature"]),
    "solar.get_incidence_angle": (["altitude_deg", "temperature", LON, "a"], ["altitude_deg", "temperature", LON, "a"]),
    "util.diffuse_underclear": ([LAT, LON, "when", "elevation", "temperature", "pressure"], [LAT, LON, "elevation", "temperature", "pressure"]),
    "util.diffuse_underovercast": ([LAT, LON, "when", "elevation", "temperature", "pressure"], [LAT, LON, "elevation", "temperature", "pressure"]),
    "util.solarelevation_function_clear": ([LAT, LON, "when", "temperature", "pressure", "elevation"], [LAT, LON, "temperature", "pressure", "elevation"]),
    "util.solarelevation_function_overcast": ([LAT, LON, "when", "elevation", "temperature", "pressure"], [LAT, LON, "elevation", "temperature", "pressure"]),
    "util.global_irradiance_overcast": ([LAT, LON, "when", "elevation", "temperature", "pressure"], [LAT, LON, "elevation", "temperature", "pressure"]),
}
SHAPES = {"n": (6,), "one": (1,), "zero-d": (), "col": (3, 1), "row": (1, 2), "mat": (2, 3), "cube": (1, 2, 3), "empty": (0,), "row3": (3,), "single": (1, 1), "nothing": (0, 2)}
LONG = [(1031,), (33, 40)]
KINDS = ["plain", "int", "strided", "fortran", "readonly", "reversed"]


def build(param, shape, kind, shift):
    if param == "when":
        vals = np.array(WHENS, dtype="datetime64[us]")
    else:
        pool = INTS[param] if kind == "int" else POOL[param]
        vals = np.array(pool)
    vals = np.roll(vals, shift)
    n = int(np.prod(shape)) if shape else 1
    x = np.resize(vals, n)
    if kind == "strided":
        big = np.repeat(x, 2)
        x = big[::2]
    x = x.reshape(shape)
    if kind == "fortran":
        x = np.asfortranarray(x)
    if kind == "reversed" and x.ndim:
        x = x[::-1]
    if kind == "readonly":
        x = x.copy()
        x.flags.writeable = False
    return x


def scalar_when(x):
    """datetime64 -> aware datetime"""
    return x.astype("datetime64[us]").item().replace(tzinfo=D.UTC)


def check(cases):
    out = Outcome()
    api.backend("numpy")
    for c in cases:
        name, assign, kind, shift, wi = c
        params, vec = FUNCS[name]
        f = api.fn(name)
        arrays, args = {}, []
        for i, p in enumerate(params):
            if p in assign:
                arrays[p] = build(p, tuple(assign[p]), kind, shift + i)
                args.append(arrays[p])
            elif p == "when":
                args.append(scalar_when(np.array(WHENS[wi], dtype="datetime64[us]")))
            else:
                args.append(POOL[p][(shift + i) % 6])
        before = {p: a.copy() for p, a in arrays.items()}
        shape = np.broadcast_shapes(*[a.shape for a in arrays.values()])
        with np.errstate(all="ignore"):
            r = api.outcome(f, *args)
        out.call()
        if r[0] != "ok":
            out.fail(c, "%s raised %s: %s" % (name, r[1], r[2]))
            continue
        if any(not np.array_equal(before[p], arrays[p]) or before[p].dtype != arrays[p].dtype for p in arrays):
            out.fail(c, "%s modified an argument" % name)
            continue
        got = r[1] if isinstance(r[1], tuple) else (r[1],)
        bcast = {p: np.broadcast_to(a, shape) for p, a in arrays.items()}
        bad = None
        # a component may not depend on all the arrays (azimuth: not on the atmosphere): it must broadcast to the shape
        try:
            got = [np.broadcast_to(np.asarray(g), shape) for g in got]
        except ValueError:
            bad = "shape %r does not fit %r" % ([np.shape(g) for g in got], shape)
        tol = 1e-9
        if bad is None and shape and int(np.prod(shape)) == 1 and all(a.shape == shape for a in arrays.values()):
            # one element: the same number of dimensions as with more elements
            more = [np.resize(arrays[p], (2,) * len(shape)) if p in arrays else a for p, a in zip(params, args)]
            with np.errstate(all="ignore"):
                m = api.outcome(f, *more)
            out.call()
            dims = [np.ndim(x) for x in (m[1] if isinstance(m[1], tuple) else (m[1],))] if m[0] == "ok" else None
            mine = [np.ndim(x) for x in (r[1] if isinstance(r[1], tuple) else (r[1],))]
            if dims != mine:
                bad = "%r dimensions for one element, %r for more" % (mine, dims)
        memo = {}
        if bad is None:
            for idx in np.ndindex(*shape):
                sargs = []
                for p, a in zip(params, args):
                    if p in bcast:
                        v = bcast[p][idx]
                        sargs.append(scalar_when(v) if p == "when" else v.item())
                    else:
                        sargs.append(a)
                key = repr(sargs)
                if key not in memo:
                    with np.errstate(all="ignore"):
                        memo[key] = api.outcome(f, *sargs)
                    out.call()
                s = memo[key]
                if s[0] != "ok":
                    bad = "element %r: the scalar call raised %s" % (idx, s[1:])
                    break
                sv = s[1] if isinstance(s[1], tuple) else (s[1],)
                for g, x in zip(got, sv):
                    y, x = float(g[idx]), float(x)
                    # asin/acos near +-1 and positions near the zenith lose digits
                    t = tol + (5e-6 if min(abs(x % 180 - 90), x % 180, 180 - x % 180) < 0.05 and "get_a" in name + "get_incidence" else 0)
                    if not (D.same_number(y, x, t, t) or
                            (y == y and x == x and abs(y) < 1e9 and abs(x) < 1e9 and abs(D.angle_diff(y, x)) <= t)):
                        bad = "element %r: %r, scalar call %r" % (idx, y, x)
                if bad:
                    break
        if bad:
            out.fail(c, "%s %s" % (name, bad))
        else:
            out.ok()
    return out


CORNER = dict(latitude_deg=[p[0] for p in corners.PLACES], longitude_deg=[p[1] for p in corners.PLACES], elevation=corners.ELEVS, temperature=[a[0] for a in corners.ATMOS], pressure=[a[1] for a in corners.ATMOS],
              altitude_deg=[89.5, -0.5, 12.25, 0.05, 45.0, -60.0, 5.5], day=[1, 59, 60, 61, 183, 365, 366])


def corner_arrays(cases):
    """[function, instant, first element, elements, array parameters]: a scalar instant written in any zone, the other arguments from the corner alphabets"""
    out = Outcome()
    api.backend("numpy")
    for c in cases:
        name, w, k, n, vec = c
        params, f = FUNCS[name][0], api.fn(name)
        when = D.dt(w)
        args = []
        for j, p in enumerate(params):
            vals = CORNER.get(p)
            args.append(when if p == "when" else np.array([float(vals[(k + (j + 1) * q) % len(vals)]) for q in range(n)]) if p in vec else vals[(k + j) % len(vals)])
        r = api.outcome(f, *args)
        out.call()
        if r[0] != "ok":
            out.fail(c, "%s raised %s: %s" % (name, r[1], r[2]))
            continue
        got = r[1] if isinstance(r[1], tuple) else (r[1],)
        bad = None
        for q in range(n):
            s = api.outcome(f, *[a[q].item() if isinstance(a, np.ndarray) else a for a in args])
            out.call()
            if s[0] != "ok":
                bad = "element %d: the scalar call raised %s" % (q, s[1:])
                break
            for g, x in zip(got, s[1] if isinstance(s[1], tuple) else (s[1],)):
                y, x = float(np.broadcast_to(np.asarray(g), (n,))[q]), float(x)
                t = 1e-9 + (5e-6 if min(abs(x % 180 - 90), x % 180, 180 - x % 180) < 0.05 and "get_a" in name else 0)
                if not (D.same_number(y, x, t, t) or y == y and x == x and abs(y) < 1e9 and abs(x) < 1e9 and abs(D.angle_diff(y, x)) <= t):
                    bad = "element %d: %r, scalar call %r" % (q, y, x)
        if bad:
            out.fail(c, "%s %s" % (name, bad))
        else:
            out.ok()
    return out


def when_arrays(cases):
    """[function, unit, instants, other arrays or not]: arrays of instants in every special year, at the resolution of the unit"""
    out = Outcome()
    api.backend("numpy")
    for c in cases:
        name, unit, ws, mixed = c
        params, f = FUNCS[name][0], api.fn(name)
        whens = np.array([np.datetime64(D.dt(w).replace(tzinfo=None), "us") for w in ws]).astype("datetime64[%s]" % unit)
        args = [whens if p == "when" else np.array([float(CORNER[p][(3 * q + j) % len(CORNER[p])]) for q in range(len(ws))]) if mixed else CORNER[p][(ws[0][0] + j) % len(CORNER[p])] for j, p in enumerate(params)]
        r = api.outcome(f, *args)
        out.call()
        if r[0] != "ok" or np.shape(r[1]) != whens.shape:
            out.fail(c, "%s gave %r" % (name, r[1:] if r[0] != "ok" else np.shape(r[1])))
            continue
        bad = None
        for q in range(len(ws)):
            x = float(f(*[scalar_when(whens[q]) if p == "when" else a[q].item() if isinstance(a, np.ndarray) else a for p, a in zip(params, args)]))
            out.call()
            y = float(r[1][q])
            t = 1e-9 + (5e-6 if min(abs(x % 180 - 90), x % 180, 180 - x % 180) < 0.05 and "get_a" in name else 0)
            if not (D.same_number(y, x, t, t) or abs(D.angle_diff(y, x)) <= t):
                bad = "element %d (%s): %r, scalar call %r" % (q, whens[q], y, x)
        if bad:
            out.fail(c, "%s %s" % (name, bad))
        else:
            out.ok()
    return out


PAIRED = dict(POOL)
for _p, _v in dict(latitude_deg=[90.0, -90.0, 23.45, -23.45, 1e-9, 89.999999], longitude_deg=[180.0, 360.0, 720.0, -360.0, 179.999, 1e-9], elevation=[-0.0, 1e5, 1e-9], temperature=[150.0, 400.0], pressure=[-0.0, 1e-3, 200000.0],
                   altitude_deg=[-90.0, -0.0, 89.999, -0.8333, -0.8334, -5.11, 1e-9, -1e-9, 5.0, 60.0, -45.0], day=[2, 59, 61, 94, 100, 275, 364, 365], a=[180.0, 90.0, 270.0, 359.999, 1e-9, -90.0, 400.0], d=[23.45, -23.45, 1e-9]).items():
    PAIRED[_p] = POOL[_p] + _v


def paired(name, p):
    """alphabet of one parameter of a function, for pairs of elements"""
    if p == "when":
        return WHENS + ["2024-02-29T23:59:59", "2023-12-31T23:59:59", "2000-01-01T00:00:00", "1900-03-01T06:00:00", "1583-01-01T00:00:01", "2014-05-01T00:00:00", "2012-06-30T12:00:30"]
    return PAIRED[p]


def pairs(cases):
    """[function, position of the array parameter, first element, others]: arrays [x, y] and [y, x] of every two values of one parameter: no element depends on the other"""
    out = Outcome()
    api.backend("numpy")
    for c in cases:
        name, i, k = c
        f = api.fn(name)
        if name in FUNCS:
            params = FUNCS[name][0]
            base = [scalar_when(np.datetime64(WHENS[0])) if p == "when" else POOL[p][0] for p in params]
            dated = params[i] == "when"
            vals = paired(name, params[i])
            vals = list(np.array(vals, dtype="datetime64[us]")) if dated else [float(v) for v in vals]
        else:
            base = list(functions.arguments(name, functions.cases(name, 1)[0]))
            vals, dated = [float(v) for v in functions.ALL[name][i]], False
        def call(x):
            with np.errstate(all="ignore"):
                return api.outcome(f, *base[:i], x, *base[i + 1:])
        def leaves(r):
            return [r[k] for k in sorted(r)] if isinstance(r, dict) else list(r) if isinstance(r, tuple) else [r]
        def one(q):
            if q not in memo:
                memo[q] = call(scalar_when(vals[q]) if dated else vals[q])
                out.call()
            return memo[q]
        memo = {}
        for m in range(len(vals)):
            for order in ((k, m), (m, k), (m, k, m)):
                exp = [one(q) for q in order]
                if any(e[0] != "ok" for e in exp):
                    continue        # nothing to compare with
                r = call(np.array([vals[q] for q in order]))
                out.call()
                bad = None
                if r[0] != "ok":
                    bad = "raised %s: %s" % tuple(r[1:3])
                else:
                    for j, e in enumerate(exp):
                        for g, x in zip(leaves(r[1]), leaves(e[1])):
                            try:
                                y, x = float(np.broadcast_to(np.asarray(g), (len(order),))[j]), float(x)
                            except (ValueError, TypeError) as err:
                                bad = "result does not fit: %s" % err
                                break
                            t = 1e-9 + (5e-6 if min(abs(x % 180 - 90), x % 180, 180 - x % 180) < 0.05 and "solar.get_" in name else 0)
                            if not (D.same_number(y, x, t, t) or abs(D.angle_diff(y, x)) <= 2e-6 and "solar.get_" in name):
                                bad = "element %d: %r, scalar call %r" % (j, y, x)
                if bad:
                    out.fail(c, "%s of %r in place %d: %s" % (name, [str(vals[q]) for q in order], i, bad))
                    break
            else:
                out.ok()
                continue
            break
    return out


NAN, INF = float("nan"), float("inf")


def missing(cases):
    """[function, position of the array parameter, what is missing, place]: one element that is no number (no instant) leaves the others as they are, and gives itself what it gives alone"""
    out = Outcome()
    api.backend("numpy")
    for c in cases:
        name, i, gap, place = c
        f = api.fn(name)
        if name in FUNCS:
            params = FUNCS[name][0]
            base = [scalar_when(np.datetime64(WHENS[0])) if p == "when" else POOL[p][0] for p in params]
            vals = np.array(WHENS, dtype="datetime64[us]") if params[i] == "when" else np.array([float(v) for v in POOL[params[i]]])
        else:
            base = list(functions.arguments(name, functions.cases(name, 1)[0]))
            vals = np.resize(np.array([float(v) for v in functions.ALL[name][i]]), 6)
        full = vals.copy()
        full[place] = np.datetime64("NaT") if vals.dtype.kind == "M" else float(gap)

        def call(x):
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return api.outcome(f, *base[:i], x, *base[i + 1:])
        a, b = call(vals), call(full)
        out.call(2)
        if a[0] != "ok":
            out.ok()
            continue
        if b[0] != "ok":
            out.fail(c, "%s raised %s: %s" % (name, b[1], b[2]))
            continue
        leaves = lambda r: [r[k] for k in sorted(r)] if isinstance(r, dict) else list(r) if isinstance(r, tuple) else [r]  # noqa: E731
        bad = None
        alone = call(full[place:place + 1])
        out.call()
        for x, y, z in zip(leaves(a[1]), leaves(b[1]), leaves(alone[1]) if alone[0] == "ok" else [None] * 9):
            x, y = np.broadcast_to(np.asarray(x, dtype=float), (6,)), np.broadcast_to(np.asarray(y, dtype=float), (6,))
            k = [j for j in range(6) if j != place and not D.same_number(float(x[j]), float(y[j]), 1e-9, 1e-9)]
            if k:
                bad = "with %s in element %d, element %d is %r, else %r" % (gap, place, k[0], y[k[0]], x[k[0]])
            elif z is not None and not D.same_number(float(np.ravel(z)[0]), float(y[place]), 1e-9, 1e-9):
                bad = "element %d, %s, is %r, alone %r" % (place, gap, y[place], np.ravel(z)[0])
        if bad:
            out.fail(c, "%s: argument %d %s" % (name, i, bad))
        else:
            out.ok()
    return out


def huge(cases):
    """[function, positions of the array parameters, length]: an array much longer than its alphabet repeats the result for the alphabet"""
    out = Outcome()
    api.backend("numpy")
    for c in cases:
        name, pos, n = c
        f = api.fn(name)
        if name in FUNCS:
            params = FUNCS[name][0]
            base = [scalar_when(np.datetime64(WHENS[0])) if p == "when" else POOL[p][0] for p in params]
            vals = {i: np.array(WHENS, dtype="datetime64[us]") if params[i] == "when" else np.array([float(v) for v in POOL[params[i]]]) for i in pos}
        else:
            base = list(functions.arguments(name, functions.cases(name, 1)[0]))
            vals = {i: np.resize(np.array([float(v) for v in functions.ALL[name][i]]), 6) for i in pos}
        with np.errstate(all="ignore"):
            a = api.outcome(f, *[vals.get(i, x) for i, x in enumerate(base)])
            b = api.outcome(f, *[np.resize(vals[i], n) if i in vals else x for i, x in enumerate(base)])
        out.call(2)
        bad = None
        if a[0] != b[0]:
            bad = "%r for an array of %d elements, %s for six" % (b[:3], n, a[0])
        elif a[0] == "ok":
            leaves = lambda r: [r[k] for k in sorted(r)] if isinstance(r, dict) else list(r) if isinstance(r, tuple) else [r]  # noqa: E731
            for x, y in zip(leaves(a[1]), leaves(b[1])):
                x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
                if x.shape == () and y.shape == ():
                    x, y = np.ravel(x), np.ravel(y)
                elif x.shape != (6,) or y.shape != (n,):
                    bad = "shapes %r and %r" % (x.shape, y.shape)
                    break
                x = np.resize(x, len(y))
                with np.errstate(all="ignore"):
                    d = np.abs(x - y)
                    # vector instructions may round otherwise than the scalar ones for the last elements
                    ok = (d <= 2e-6) | (np.abs(360 - d) <= 2e-6) | (d <= 1e-9 * np.abs(x)) | (x == y) | np.isnan(x) & np.isnan(y)
                if not ok.all():
                    k = int(np.argmin(ok))
                    bad = "element %d of %d: %r, in an array of six %r" % (k, n, y[k], x[k])
        if bad:
            out.fail(c, "%s, arguments %r: %s" % (name, pos, bad))
        else:
            out.ok()
    return out


STAGES = [n for n in functions.STAGES if n.startswith("solar.") or n.startswith("solartime.")] + ["util.diffuse_transmittance", "util.diffuse_ratio", "elevation.get_temperature_with_elevation"]


def numeric_axes(name):
    return [i for i, a in enumerate(functions.ALL[name]) if not isinstance(a[0], (str, list))]


def stages(cases):
    """[function, positions given as arrays, kind, shift]: the intermediate functions, all arrays of one length"""
    out = Outcome()
    api.backend("numpy")
    for c in cases:
        name, pos, kind, shift = c
        f = api.fn(name)
        base = functions.arguments(name, functions.cases(name, 1)[0])
        args, arrays = list(base), {}
        for i in pos:
            vals = functions.ALL[name][i]
            vals = [vals[(shift + k) % len(vals)] for k in range(5)]
            x = np.array([int(v) for v in vals] if kind == "int" else [float(v) for v in vals])
            if kind == "strided":
                x = np.repeat(x, 2)[::2]
            if kind == "matrix":
                x = np.resize(x, (2, 3))
            if kind == "single":
                x = x[:1].reshape(1, 1)
            if kind == "empty":
                x = x[:0]
            if kind == "long":
                x = np.resize(x, 1031)
            if kind == "reversed":
                x = x[::-1]
            if kind == "readonly":
                x.flags.writeable = False
            arrays[i] = args[i] = x
        before = {i: a.copy() for i, a in arrays.items()}
        with np.errstate(all="ignore"):
            r = api.outcome(f, *args)
        out.call()
        if r[0] != "ok":
            out.fail(c, "%s raised %s: %s" % (name, r[1], r[2]))
            continue
        if any(not np.array_equal(before[i], a) or before[i].dtype != a.dtype for i, a in arrays.items()):
            out.fail(c, "%s modified an argument" % name)
            continue
        shape = next(iter(arrays.values())).shape
        keys = sorted(r[1]) if isinstance(r[1], dict) else [None]
        bad = None
        if kind in ("single", "empty"):
            # as many dimensions as with more elements
            with np.errstate(all="ignore"):
                m = api.outcome(f, *[np.resize([float(v) for v in functions.ALL[name][i][:2]], (2,) * len(shape)) if i in arrays else a for i, a in enumerate(args)])
            out.call()
            for k in keys:
                x, y = (r[1], m[1]) if k is None else (r[1][k], m[1][k])
                if m[0] == "ok" and np.ndim(x) != np.ndim(y):
                    bad = "%d dimensions for an array of shape %r, %d for more elements" % (np.ndim(x), shape, np.ndim(y))
        memo = {}
        for idx in np.ndindex(*shape):
            sargs = [before[i][idx].item() if i in before else a for i, a in enumerate(args)]
            if repr(sargs) not in memo:
                memo[repr(sargs)] = api.outcome(f, *sargs)
                out.call()
            s = memo[repr(sargs)]
            if s[0] != "ok":
                continue  # scalar division by zero and the like: nothing to compare with
            for k in keys:
                try:
                    y = float(np.broadcast_to(np.asarray(r[1] if k is None else r[1][k]), shape)[idx])
                    x = float(s[1] if k is None else s[1][k])
                except (ValueError, TypeError) as e:
                    bad = "result does not fit: %s" % e
                    break
                if not (D.same_number(y, x, 1e-9, 1e-9) or abs(D.angle_diff(y, x)) <= 2e-6 and "solar.get_" in name):
                    bad = "element %r: %r, scalar call %r" % (idx, y, x)
            if bad:
                break
        if bad:
            out.fail(c, "%s %s" % (name, bad))
        else:
            out.ok()
    return out


def spaces(tier):
    th = tier == "thorough"
    cs = []
    for name, (params, vec) in FUNCS.items():
        k = 0
        for r in range(1, len(vec) + 1):
            for sub in itertools.combinations(vec, r):
                # every shape for all of them, then column/row mixtures
                combos = [{p: SHAPES[s] for p in sub} for s in SHAPES]
                if r >= 2:
                    for a, b in (("col", "row"), ("row", "col"), ("col", "row3"), ("one", "n"), ("n", "zero-d"), ("zero-d", "mat"), ("mat", "row3")):
                        for rot in range(r if th else 1):
                            combos.append({p: SHAPES[a if (i + rot) % 2 == 0 else b] for i, p in enumerate(sub)})
                    if r >= 3:
                        combos.append({p: ((2, 1, 1), (3, 1), (1,), (2, 1, 1), (3, 1))[i % 5] for i, p in enumerate(sub)})
                if r in (1, len(vec)):
                    combos += [{p: s for p in sub} for s in LONG]
                for j, asg in enumerate(combos):
                    for kind in (KINDS if th or r == 1 else [KINDS[(j + k) % len(KINDS)]]):
                        cs.append([name, {p: list(s) for p, s in asg.items()}, kind, (j + k) % 6, (j + k) % len(WHENS)])
                k += 1
    st = []
    for name in STAGES:
        ax = numeric_axes(name)
        subs = [x for r in range(1, len(ax) + 1) for x in itertools.combinations(ax, r)]
        if not th:
            subs = [x for x in subs if len(x) in (1, 2, len(ax))]
        st += [[name, list(x), kind, sh] for x in subs for kind in ("plain", "int", "strided", "matrix", "reversed", "readonly", "single", "empty", "long") for sh in (range(6) if th else (0, 3))]
    ca, k = [], 0
    ins = corners.instants()
    for name, (params, vec) in FUNCS.items():
        if "when" not in params:
            continue
        vs = [v for v in vec if v != "when"]
        subs = [list(x) for r in range(1, len(vs) + 1) for x in itertools.combinations(vs, r)]
        for w in ins:
            k += 1
            ca.append([name, w, k, 3 + k % 4, subs[k % len(subs)]])
    wa = []
    u = [D.from_dt(D.dt(w).astimezone(D.UTC)) for w in ins if 2 <= w[0] < 9999] + [[y, m, d, 23, 59, 59, 999999, 0] for y in D.ALL_YEARS[1:-1] for m, d in ((2, 28), (12, 31), (1, 1), (7, 1))]
    for name, (params, vec) in FUNCS.items():
        if "when" in vec:
            wa += [[name, unit, u[i:i + 7], (i + j) % 2] for j, unit in enumerate(("us", "ms", "s", "m", "h")) for i in range(0, len(u), 7)]
            wa += [[name, unit, [w for w in u if 1700 < w[0] < 2250][i:i + 7], (i + j) % 2] for j, unit in enumerate(("ns", "D")) for i in range(0, 350, 7)]
    pr = [[n, FUNCS[n][0].index(p), k] for n in FUNCS for p in FUNCS[n][1] for k in range(len(paired(n, p)))] + [[n, i, k] for n in STAGES if n not in FUNCS for i in numeric_axes(n) for k in range(len(functions.ALL[n][i]))]
    where = [[n, FUNCS[n][0].index(p)] for n in FUNCS for p in FUNCS[n][1]] + [[n, i] for n in STAGES if n not in FUNCS for i in numeric_axes(n)]
    ms = [x + [g, k] for x in where for g in ("nan", "inf", "-inf") for k in ((0, 2, 5) if not th else range(6))]
    hg = [[n, [i], m] for n, i in where for m in ([4099, 16411] if not th else [4099, 8209, 16411, 32771, 65537, 131101])]
    hg += [[n, [i for i, p in enumerate(params) if p in vec], m] for n, (params, vec) in FUNCS.items() if len(vec) > 1 for m in ([16411, 131101] if not th else [4099, 65537, 131101, 1048583])]
    return [Space("missing elements", ms, missing, chunk=40), Space("huge arrays", hg, huge, chunk=4), Space("pairs of elements", pr, pairs, chunk=40), Space("corner arrays", ca, corner_arrays, chunk=100), Space("arrays of instants", wa, when_arrays, chunk=100), Space("stages", st, stages), Space("shapes", cs, check, chunk=40)]
