"""Extraterrestrial irradiance, clear index, diffuse ratio, declination and earth-sun factor: reference formulas executed against the real functions on every day of
several years x times of day (crossing sunrise and sunset minute by minute) x places x solar constants x zones of writing x backends x call forms."""
import math

import numpy as np

from .. import corners, domains as D
from ..core import Space, Outcome
from ..ref import textbook
from .. import api

PROP = "C25"
GHI = [500.0, 0.0, 1, 1000, 1367.5, 1e-6, 123456.0]


def near(a, b, rel=1e-9, absolute=1e-9):
    return abs(float(a) - b) <= absolute + rel * abs(b)


def irradiance(cases):
    """[lat, lon, when, SC or None, call form, backend]"""
    out = Outcome()
    for c in cases:
        lat, lon, w, sc, form, b = c
        api.backend(b)
        when = D.dt(w)
        f = api.util.extraterrestrial_irrad
        r = api.outcome(f, lat, lon, when, *([] if sc is None else [sc])) if form == "pos" else \
            api.outcome(f, when=when, longitude_deg=lon, latitude_deg=lat, **({} if sc is None else {"SC": sc}))
        out.call()
        const = 1367.0 if sc is None else sc
        ref = textbook.extraterrestrial(when, lat, lon, const)
        if r[0] != "ok" or not near(r[1], ref, 1e-9, 1e-9 * const):
            out.fail(c, "irradiance %r, textbook %r" % (r[1:], ref))
        elif not 0 <= float(r[1]) <= 1.036 * const:
            out.fail(c, "irradiance %r is not between 0 and 1.036 times %r" % (r[1], const))
        else:
            out.ok()
            if ref > 1e-6 and sc is None:
                for g in [GHI[(i + len(repr(c))) % len(GHI)] for i in range(2)]:
                    k = api.outcome(api.util.clear_index, g, lat, lon, when) if form == "pos" else api.outcome(api.util.clear_index, when=when, ghi_data=g, latitude_deg=lat, longitude_deg=lon)
                    out.call()
                    if k[0] == "ok" and near(float(k[1]) * ref, g):
                        out.ok()
                    else:
                        out.fail(c, "clear index of %r is %r with irradiance %r" % (g, k[1:], ref))
    return out


def ratios(cases):
    """[numerator list, denominator list, kind]: diffuse ratio and clear index on arrays"""
    out = Outcome()
    for c in cases:
        d, g, kind, b = c
        api.backend(b)
        x, y = (np.array(d), np.array(g)) if kind == "array" else (np.array(d), g[0]) if kind == "array/scalar" else (d[0], g[0])
        keep = np.array(x, copy=True), np.array(y, copy=True)
        r = api.outcome(api.util.diffuse_ratio, x, y) if len(c[0]) % 2 else api.outcome(api.util.diffuse_ratio, ghi_data=y, DIFF_data=x)
        out.call()
        with np.errstate(all="ignore"):
            ok = r[0] == "ok" and np.shape(r[1]) == np.broadcast(x, y).shape and np.allclose(np.asarray(r[1], float) * keep[1], keep[0], rtol=1e-12, atol=1e-12) and np.array_equal(keep[0], x) and np.array_equal(keep[1], y)
        if ok:
            out.ok()
        else:
            out.fail(c, "diffuse ratio %r" % (r[1:],))
        when = D.dt(D.W(2016, 6, 1, 12))
        irr = textbook.extraterrestrial(when, 40.0, 0.0)
        r = api.outcome(api.util.clear_index, x, 40.0, 0.0, when)
        out.call()
        if r[0] == "ok" and np.shape(r[1]) == np.shape(x) and np.allclose(np.asarray(r[1], float) * irr, keep[0], rtol=1e-9, atol=1e-9):
            out.ok()
        else:
            out.fail(c, "clear index %r" % (r[1:],))
    return out


def yearly(cases):
    """[when, TY or None, backend]"""
    out = Outcome()
    for c in cases:
        w, ty, b = c
        api.backend(b)
        when = D.dt(w)
        n = textbook.fields(when)[0]
        r = api.outcome(api.util.declination_degree, when, *([] if ty is None else [ty])) if w[1] % 2 else api.outcome(api.util.declination_degree, **dict({"when": when}, **({} if ty is None else {"TY": ty})))
        s = api.outcome(api.util.mean_earth_sun_distance, when)
        out.call(2)
        ref = textbook.declination(n, 365 if ty is None else ty)
        if r[0] == "ok" and near(r[1], ref) and abs(float(r[1])) <= 23.45 + 1e-9:
            out.ok()
        else:
            out.fail(c, "declination %r, formula %r" % (r[1:], ref))
        if s[0] == "ok" and near(s[1], textbook.earth_sun(n)) and 0.9665 - 1e-9 <= float(s[1]) <= 1.0335 + 1e-9:
            out.ok()
        else:
            out.fail(c, "earth-sun factor %r, formula %r" % (s[1:], textbook.earth_sun(n)))
    return out


def spaces(tier):
    th = tier == "thorough"
    yc, k = [], 0
    for y in ((1, 1900, 1999, 2000, 2015, 2016, 2100, 9998) if th else (1900, 2015, 2016, 9998)):
        for m, d in D.days(y):
            for c in ((D.CLOCK[0], D.CLOCK[11], D.CLOCK[-1])):
                k += 1
                if y == 1 and (m, d) < (1, 3):
                    continue
                for ty in ((None, 365, 366, 365.25, 360, 1000) if th else (None, [365, 366, 365.25, 360][k % 4])):
                    yc.append([D.from_dt(D.datetime.datetime(y, m, d, *c), D.OFFSETS[k % len(D.OFFSETS)]), ty, api.BACKENDS[k % 2]])
    edges = []
    for y in D.YEARS + D.FAR_YEARS + [9999]:
        for m, d in ((1, 1), (1, 3), (2, 28), (2, 29), (3, 1), (6, 30), (10, 15), (12, 29), (12, 31)):
            if d > D.mlen(y, m) or (y == 1 and (m, d) == (1, 1)) or (y == 9999 and (m, d) == (12, 31)):
                continue
            for c in D.stride(D.CLOCK, 22 if th else 5):
                k += 1
                edges.append(D.from_dt(D.datetime.datetime(y, m, d, *c), D.OFFSETS[k % len(D.OFFSETS)]))
    edges += [D.W(9999, 12, 31, 23, 59, 59, 999999), D.W(1, 1, 1)]
    yc += [[w, [None, 365, 366, 365.25][i % 4], api.BACKENDS[i // 4 % 2]] for i, w in enumerate(edges)]
    ir = []
    SCS = [None, 1367.0, 1361, 1.0, 0.0, 1400.5]
    # through every minute of sunrise and sunset at several places
    for lat, lon in ((42.2, -71.4), (-33.0, 151.0), (0.0, 0.0), (66.0, 25.0), (-75.0, 300.0)):
        for m, d in ((3, 20), (6, 21), (12, 21)):
            for h in range(24):
                for mi in range(0, 60, 1 if th else 4):
                    k += 1
                    ir.append([lat, lon, D.W(2016, m, d, h, mi, k % 60), SCS[k % 6], ["pos", "kw"][k % 2], api.BACKENDS[k // 2 % 2]])
    lats, lons = (D.LATS, D.WIDE_LONS) if th else (D.stride(D.LATS, 25), D.stride(D.WIDE_LONS, 15))
    for la in lats:
        for lo in lons:
            for _ in range(8 if th else 4):
                k += 1
                ir.append([la, lo, D.W(1900 + k * 7 % 200, 1 + k % 12, 1 + k % 28, k * 5 % 24, k * 11 % 60, k % 60, 0, D.OFFSETS[k % len(D.OFFSETS)]), SCS[k % 6], ["pos", "kw"][k % 2], api.BACKENDS[k // 3 % 2]])
    for y in ((1999, 2000, 2015, 2016) if th else (2015, 2016)):
        for m, d in D.days(y):
            for la in (50.0, -50.0, 80.0, 5.0):
                for c in (D.CLOCK if th else D.stride(D.CLOCK, 3)):
                    k += 1
                    ir.append([la, D.LONS[k % len(D.LONS)], D.from_dt(D.datetime.datetime(y, m, d, *c), D.OFFSETS[k % len(D.OFFSETS)]), SCS[k % 6] if k % 3 else None, ["pos", "kw"][k % 2], api.BACKENDS[k % 2]])
    for i, w in enumerate(edges):
        ir.append([(D.LATS + [x + 0.5 for x in range(-90, 90)])[i * 7 % (len(D.LATS) + 180)], (D.WIDE_LONS + [1080.5, -1200.0])[i * 3 % (len(D.WIDE_LONS) + 2)], w, SCS[i % 6], ["pos", "kw"][i % 2], api.BACKENDS[i // 2 % 2]])
    yc += [[w, [None, 365, 366, 365.25][i % 4], api.BACKENDS[i // 4 % 2]] for i, w in enumerate(corners.instants())]
    ir += [[c[1], c[2], c[0], SCS[i % 6] if i % 3 else None, ["pos", "kw"][i % 2], c[6]] for i, c in enumerate(corners.positions())]
    num = [[100.0], [0.0, 50.0, 900.0], [1, 2, 3], [1e-9, 1e9]]
    den = [500.0, 1.0, 1000, 3]
    ra = []
    for a in num:
        for g in den:
            for b in api.BACKENDS:
                ra += [[a, [g] * len(a), "array", b], [a, [g], "array/scalar", b], [a, [g], "scalar", b]]
    return [Space("yearly", yc, yearly, chunk=300), Space("ratios", ra, ratios), Space("irradiance", ir, irradiance, chunk=300)]
