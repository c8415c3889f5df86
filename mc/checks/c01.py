"""Exhaustive comparison of the computed sun direction, on an enumerated space of (instant, place, elevation, backend), with
three outside references: 6259 USNO ephemeris rows, the published SPA (mc/ref/spa.py, years 1 to 6000) and the low-precision
formulas of the Astronomical Almanac (mc/ref/meeus.py, 1950 to 2050, an independent theory)."""
import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from ..ref import spa, meeus, timeref as T
from ..selfcheck import usno
from .. import api
from . import poscases

PROP = "C01"
TOL = 0.02


def implementation(out, c, when, lat, lon, el, b):
    api.backend(b)
    s = api.solar
    r = api.outcome(s.get_position, lat, lon, when, el, pressure=0)
    q = (api.outcome(s.get_azimuth, lat, lon, when, el), api.outcome(s.get_altitude, lat, lon, when, el, pressure=0))
    out.call(3)
    for x in (r,) + q:
        if x[0] != "ok":
            out.fail(c, "raised %s: %s" % x[1:])
            return None
    return r[1][0], r[1][1], q[0][1], q[1][1]


def compare(out, c, got, want, what):
    az, alt = want
    d1 = float(spa.separation(float(got[0]), float(got[1]), az, alt))
    d2 = float(spa.separation(float(got[2]), float(got[3]), az, alt))
    key = "max_sep_" + what
    out.extra[key] = max(out.extra.get(key, 0.0), d1 if d1 == d1 else 9e9)
    if not (d1 <= TOL and d2 <= TOL):
        out.fail(c, "computed az %.5f alt %.5f, %s az %.5f alt %.5f: %.5f degrees apart" %
                 (got[0], got[1], what, az, alt, max(d1, d2)))
        return False
    return True


def usno_rows(cases):
    out = Outcome()
    for c in cases:
        i, b = c
        t, lat, lon, el, az, zd = ROWS[i]
        got = implementation(out, c, t.replace(tzinfo=D.UTC), lat, lon, el, b)
        if got and compare(out, c, got, (az, 90 - zd), "USNO"):
            out.ok()
    return out


ROWS = []


def grid(cases):
    out = Outcome()
    whens = [D.dt(c[0]) for c in cases]
    jd = np.array([T.jd(w) for w in whens])
    jde = np.array([T.jde(w) for w in whens])
    lat, lon, el = (np.array([float(c[i]) for c in cases]) for i in range(1, 4))
    with np.errstate(all="ignore"):
        az, e0, _ = spa.position(jd, jde, lat, lon, el)
        az2, e2 = meeus.position(jd, lat, lon)
    for i, c in enumerate(cases):
        got = implementation(out, c, whens[i], c[1], c[2], c[3], c[6])
        if not got:
            continue
        good = compare(out, c, got, (az[i], e0[i]), "SPA")
        if good and 1950 <= c[0][0] <= 2050 and c[3] < 1e5:
            good = compare(out, c, got, (az2[i], e2[i]), "almanac")
        if good:
            out.ok()
    return out


def spaces(tier):
    th = tier == "thorough"
    ROWS[:] = usno()
    rows = [[i, b] for i in range(0, len(ROWS)) for b in (api.BACKENDS if th else api.BACKENDS[i % 2:i % 2 + 1])]
    places = [(51.5, -0.1), (-33.9, 151.2), (0.0, 179.99), (78.2, 15.6), (-90.0, 0.0), (19.4, -99.1), (64.1, -21.9), (-54.8, -68.3)]
    walk = [[D.W(y, m, d, *D.CLOCK[(y + 5 * m + 3 * d) % len(D.CLOCK)]), *places[(y + m + d) % 8], [0, 4000.0, 9000.0][d % 3], 0, 0,
             api.BACKENDS[(y + m) % 2]]
            for y in range(1950, 2051) for m in range(1, 13) for d in (range(1, D.mlen(y, m) + 1, 1 if th else 9))]
    eras = [[D.W(y, m, 1 + (y * m) % 28, *D.CLOCK[(y + m) % len(D.CLOCK)]), *places[(y + m) % 8], 0, 0, 0, api.BACKENDS[m % 2]]
            for y in range(1, 6001, 1 if th else 7) for m in (1, 3, 5, 7, 8, 12)]
    hours = [[D.W(y, m, d, h, mi, 30), *p, 0, 0, 0, "math"] for y, m, d in ((2010, 6, 21), (1977, 12, 31)) for h in range(24)
             for mi in range(0, 60, 1 if th else 10) for p in places]
    fam = poscases.families(th)
    return [Space("usno", rows, usno_rows, chunk=200), Space("calendar-1950-2050", walk, grid, chunk=250),
            Space("eras-1-6000", eras, grid, chunk=250), Space("minutes-of-days", hours, grid, chunk=250),
            Space("mixed", [c for c in fam["mixed"] if c[0][0] <= 6000][:60000 if th else 5000], grid, chunk=250),
            Space("written corners", [c for c in fam["written corners"] if c[0][0] <= 6000], grid, chunk=100),
            Space("half degrees", fam["half degrees"], grid, chunk=250),
            Space("axes", [c for c in fam["axes"] if c[0][0] <= 6000], grid, chunk=250)]
