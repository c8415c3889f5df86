"""Metamorphic check over instants x observers: the directions in which all observers of a world-wide grid (both poles, the date line, the subsolar point and its antipode included) see the sun at
one instant, turned into the earth-fixed frame, are one and the same direction: within the parallax for the precise functions, within rounding for the fast ones."""
import math

from .. import corners, domains as D
from ..core import Space, Outcome
from .. import api

PROP = "C36"
# horizontal parallax at perihelion, 8.95 arc seconds for each of two observers, and 2 arc seconds for the recorded deviations of C02 (measured maximum over the thorough space: 0.00497)
TOL = 2 * 8.95 / 3600 + 2 / 3600
FAST = 1e-5
OBS_LAT = [0.0, 1e-6, -1e-6, 10.0, -10.0, 23.44, -23.44, 35.0, -35.0, 52.0, -52.0, 66.5, -66.5, 80.0, -80.0, 89.9, -89.9, 90.0, -90.0]
OBS_LON = [0.0, 13.4, -13.4, 71.4, -71.4, 90.0, -90.0, 120.0, -120.0, 151.2, -151.2, 179.999, -179.999, 180.0]


def vector(lat, lon, az, alt):
    """earth-fixed unit vector of a direction seen from a place"""
    a, h, f, l = (math.radians(float(x)) for x in (az, alt, lat, lon))
    e, n, u = math.sin(a) * math.cos(h), math.cos(a) * math.cos(h), math.sin(h)
    x, z = u * math.cos(f) - n * math.sin(f), u * math.sin(f) + n * math.cos(f)
    return x * math.cos(l) - e * math.sin(l), x * math.sin(l) + e * math.cos(l), z


def angle(a, b):
    return math.degrees(2 * math.asin(min(1.0, math.dist(a, b) / 2)))


def look(kind, lat, lon, t, elevation):
    if kind == "precise":
        az, alt = api.fn("solar.get_position")(lat, lon, t, elevation, 288.15, 0.0)
    elif kind == "separate":
        az, alt = api.fn("solar.get_azimuth")(lat, lon, t, elevation), api.fn("solar.get_altitude")(lat, lon, t, elevation, 288.15, 0.0)
    else:
        az, alt = api.fn("solar.get_azimuth_fast")(lat, lon, t), api.fn("solar.get_altitude_fast")(lat, lon, t)
    return vector(lat, lon, az, alt)


def place(v):
    return math.degrees(math.asin(max(-1.0, min(1.0, v[2])))), math.degrees(math.atan2(v[1], v[0]))


def check(cases):
    """[kind, instant, elevation, backend, places or None for the whole grid]"""
    out = Outcome()
    for c in cases:
        kind, w, el, b, sites = c
        api.backend(b)
        t = D.dt(w)
        ref = api.outcome(look, kind, 0.0, 0.0, t, 0.0)
        if ref[0] != "ok":
            out.fail(c, "%s" % (ref[1:],))
            continue
        lat, lon = place(ref[1])
        sub = [(lat + a, lon + o) for a in (0.0, 0.01, -1.0) for o in (0.0, 0.01, -0.01)]
        anti = [(-y, x + 180) for y, x in sub]
        tol, worst = FAST if kind == "fast" else TOL, 0.0
        for y, x in (sites or [(y, x) for y in OBS_LAT for x in OBS_LON]) + sub + anti:
            r = api.outcome(look, kind, y, x, t, el)
            out.call()
            d = angle(r[1], ref[1]) if r[0] == "ok" else None
            if d is None or not d <= tol:
                out.fail([kind, w, el, b, [[y, x]]], "seen from (%r, %r) the sun is %r degrees from where (0, 0) sees it (%r)" % (y, x, d, r))
                break
            worst = max(worst, d)
            out.ok()
        out.extra["max_" + kind] = max(out.extra.get("max_" + kind, 0), worst)
    return out


def spaces(tier):
    th = tier == "thorough"
    times = [D.W(2016, 3, 20, 4, 30), D.W(2016, 6, 20, 22, 34), D.W(2016, 12, 21, 10, 44, 59, 999999), D.W(2014, 9, 23, 2, 29), D.W(2024, 2, 29), D.W(1969, 7, 20, 20, 17, 40), D.W(2016, 12, 31, 23, 59, 59)]
    times += D.stride(D.instants_boundaries([1, 1600, 1950, 1972, 2000, 2015, 2038, 2050, 6000] if th else [1950, 2000, 2038]), 1400 if th else 30)
    times += [D.W(2015, 1 + h % 12, 1 + 2 * h % 28, h, (7 * h) % 60, 30) for h in range(24)]
    cs = [[k, w, 0.0, b, None] for i, w in enumerate(times) for k in ("precise", "separate", "fast") for b in (api.BACKENDS if th or k == "fast" and i % 3 == 0 else [api.BACKENDS[i % 2]])
          if th or k != "separate" or i % 4 == 0]
    cs += [["precise", w, el, "math", None] for w in times[:4] for el in (-400.0, 8848.0)]
    more = [(45.5, 360.0), (-45.5, -359.5), (89.95, 175.5), (-89.97, 540.0), (1e-5, 1e-5), (23.44, -180.0), (66.7, 1085.25), (5, -270)]
    cor = [[k, w, [0.0, 9000.0][i % 5 == 0], api.BACKENDS[i % 2], [list(more[i % 8]), list(more[(i + 3) % 8])]] for i, w in enumerate(corners.instants()) if 1000 <= w[0] <= 3000 for k in (("precise", "separate", "fast") if th else (("precise", "separate", "fast")[i % 3],))]
    cs += [["precise", w, 0.0, "numpy", [list(x) for x in more]] for w in times[:5]] + [["fast", w, 0.0, "numpy", [list(x) for x in more]] for w in times[:5]]
    return [Space("written corners", cor, check, chunk=20), Space("observers", cs, check, chunk=4)]
