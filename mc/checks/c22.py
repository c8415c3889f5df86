"""Direct radiation over all days of the year x an altitude ladder (last fractions of a degree included) x scalar and array calls x both backends, against the
textbook formula; zero at night, bounds and monotonicity are checked along every ladder."""
import math

import numpy as np

from .. import corners, domains as D
from ..core import Space, Outcome
from ..ref import textbook
from .. import api

PROP = "C22"
NIGHT = [-90.0, -89.9, -60.0, -45.0, -30.0, -18.0, -10.0, -5.11, -3.0, -1.0, -0.8333, -0.5, -0.1, -0.02, -0.01, -0.001, -1e-5, -1e-9, -1e-300, -0.0, 0.0, 0, -1, -90, -7]
DAY = [5e-324, 1e-300, 1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 0.001, 0.005, 0.01, 0.0134, 0.02, 0.05, 0.1, 0.2, 0.5, 0.8333, 1, 1.5, 2.0, 3.0, 5, 7.5, 10.0, 15.0, 19.99, 20.0, 25.0, 30, 37.5, 45.0, 52.0, 60.0, 66.6, 72.0, 80.0, 85.0, 88.0,
       89.0, 89.9, 90.0]
FINE = sorted(set([x / 10 for x in range(1, 901)]))


def night_day(alts):
    return sorted(alts)


def ladder(cases):
    """[when, backend, which ladder, form]"""
    out = Outcome()
    for c in cases:
        w, b, which, form = c
        when = D.dt(w)
        n = textbook.fields(when)[0]
        alts = night_day(NIGHT + DAY if which == "coarse" else FINE)
        api.backend(b)
        if form == "array":
            x = np.array(alts, dtype=float)
            with np.errstate(all="ignore"):
                r = api.outcome(api.radiation.get_radiation_direct, when, x)
            out.call()
            if r[0] != "ok" or np.shape(r[1]) != x.shape:
                out.fail(c, "array of altitudes: %r" % (r[1:],))
                continue
            vals = [float(v) for v in r[1]]
        else:
            vals = []
            for a in alts:
                with np.errstate(all="ignore"):
                    r = api.outcome(api.radiation.get_radiation_direct, when, a)
                out.call()
                if r[0] != "ok":
                    out.fail(c, "altitude %r raised %r" % (a, r[1:]))
                    break
                vals.append(float(r[1]))
            if len(vals) < len(alts):
                continue
        msg = None
        prev = (None, 0.0)
        for a, v in zip(alts, vals):
            ref = textbook.direct(n, a)
            if a <= 0:
                if v != 0:
                    msg = "altitude %r: %r at night" % (a, v)
            elif not math.isfinite(v) or v < 0 or v >= textbook.flux(n):
                msg = "altitude %r: %r, extraterrestrial flux %r" % (a, v, textbook.flux(n))
            elif not abs(v - ref) <= 1e-9 * max(1.0, ref):
                msg = "altitude %r: %r, formula %r" % (a, v, ref)
            elif ref > 1e-290 and not (v > 0 and v > prev[1]):
                msg = "not increasing: %r at %r, %r at %r" % (v, a, prev[1], prev[0])
            if msg:
                break
            prev = (a, v)
        if msg:
            out.fail(c, msg)
        else:
            out.ok(len(alts))
    return out


def formulas(cases):
    out = Outcome()
    for n, b in cases:
        api.backend(b)
        for f, g in (("radiation.get_apparent_extraterrestrial_flux", textbook.flux), ("radiation.get_optical_depth", textbook.depth)):
            r = api.outcome(api.fn(f), n)
            out.call()
            if r[0] == "ok" and abs(float(r[1]) - g(n)) <= 1e-9:
                out.ok()
            else:
                out.fail([n, b], "%s(%r): %r, published %r" % (f, n, r[1:], g(n)))
    return out


def air_mass(cases):
    """[altitude, backend]: 1/sin, infinite at the horizon"""
    out = Outcome()
    for a, b in cases:
        api.backend(b)
        with np.errstate(all="ignore"):
            r = api.outcome(api.radiation.get_air_mass_ratio, a)
        out.call()
        s = math.sin(math.radians(a))
        ref = 1 / s if s and abs(s) > 1e-307 else math.inf
        if r[0] == "ok" and (float(r[1]) == ref or abs(float(r[1]) - ref) <= 1e-9 * abs(ref) or math.isinf(ref) and math.isinf(float(r[1]))):
            out.ok()
        else:
            out.fail([a, b], "air mass %r, 1/sin is %r" % (r[1:], ref))
    return out


def spaces(tier):
    th = tier == "thorough"
    days, k = [], 0
    for y in ((2015, 2016, 1999, 2000, 1900) if th else (2015, 2016)):
        for m, d in D.days(y):
            for c in ((D.CLOCK[0], D.CLOCK[12], D.CLOCK[-1]) if th else (D.CLOCK[::10][(m + d) % 3],)):
                for b, form in (("math", "scalar"), ("numpy", "scalar"), ("numpy", "array")):
                    k += 1
                    off = D.OFFSETS[k % len(D.OFFSETS)]
                    days.append([D.from_dt(D.datetime.datetime(y, m, d, *c), off), b, "coarse", form])
    # every special year at its edges, by every clock time and offset in turn
    for y in D.YEARS + D.FAR_YEARS + [9999]:
        for m, d in ((1, 3), (2, 28), (2, 29), (3, 1), (7, 4), (12, 30), (12, 31)) if y == 1 else ((1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (10, 15), (12, 29)) if y == 9999 else ((1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (10, 15), (12, 30), (12, 31)):
            if d > D.mlen(y, m):
                continue
            k += 1
            c = D.CLOCK[k * 5 % len(D.CLOCK)]
            for b, form in (("math", "scalar"), ("numpy", "scalar"), ("numpy", "array"))[k % 3 if not th else 0:][:3 if th else 1]:
                days.append([D.from_dt(D.datetime.datetime(y, m, d, *c), D.OFFSETS[k * 7 % len(D.OFFSETS)]), b, "coarse", form])
        if y == 9999:
            days += [[D.W(y, 12, 31, 23, 59, 59, 999999), b, "coarse", "scalar"] for b in api.BACKENDS]
    fine = [[D.W(2016, m, d, 13, 0, 0, 0, 3600), b, "fine", form] for m in range(1, 13) for d in (1, 15) for b, form in (("math", "scalar"), ("numpy", "array"))]
    dn = [[n, b] for n in range(1, 367) for b in api.BACKENDS]
    am = [[a, b] for a in NIGHT + DAY + FINE for b in api.BACKENDS]
    cor = [[w, b, "coarse", form] for i, w in enumerate(corners.instants()) for b, form in (("math", "scalar"), ("numpy", "scalar"), ("numpy", "array"))[i % 3 if not th else 0:][:3 if th else 1]]
    return [Space("written corners", cor, ladder, chunk=20), Space("air mass", am, air_mass), Space("day numbers", dn, formulas), Space("every day", days, ladder, chunk=40), Space("fine ladder", fine, ladder, chunk=4)]
