"""The closed-form fast position as a reference model, executed against the real functions on every day of leap and common years (and century
exceptions), all clock positions of an alphabet, zones of writing, places in both hemispheres and both backends; every state is also compared with
the precise airless direction of the published algorithm."""
import math

import numpy as np

from .. import corners, domains as D
from ..core import Space, Outcome
from ..ref import spa, textbook, timeref as T
from .. import api

PROP = "C15"
TOL = 1e-8


def check(cases):
    """[when, lat, lon, backend]"""
    out = Outcome(extra=dict(max_deg_from_precise=0.0))
    whens = [D.dt(c[0]) for c in cases]
    jd, jde = np.array([T.jd(w) for w in whens]), np.array([T.jde(w) for w in whens])
    lat, lon = np.array([float(c[1]) for c in cases]), np.array([float(c[2]) for c in cases])
    with np.errstate(all="ignore"):
        paz, pel, _ = spa.position(jd, jde, lat, lon, 0.0, 0.0)
    for i, (c, w) in enumerate(zip(cases, whens)):
        api.backend(c[3])
        ra, rz = api.outcome(api.solar.get_altitude_fast, c[1], c[2], w), api.outcome(api.solar.get_azimuth_fast, c[1], c[2], w)
        out.call(2)
        if ra[0] != "ok" or rz[0] != "ok":
            out.fail(c, "raised %r %r" % (ra[1:], rz[1:]))
            continue
        alt, az = float(ra[1]), float(rz[1])
        taz, talt = textbook.fast(w, c[1], c[2])
        e, n, u = textbook.direction(w, c[1], c[2])
        horiz = math.hypot(e, n)
        # arcsine near +-1: the altitude loses digits near the zenith, the azimuth near east and west
        ta = TOL + (2e-6 if horiz < 0.05 else 0)
        tz = TOL + 3e-6 * (1 if abs(n) < 0.05 or horiz < 0.05 else 0)
        if not (abs(alt - talt) <= ta and 0 <= az <= 360):
            out.fail(c, "altitude %r, azimuth %r; closed form altitude %r" % (alt, az, talt))
        elif not abs(D.angle_diff(az, taz)) * horiz <= tz:
            out.fail(c, "azimuth %r, closed form %r (altitude %r)" % (az, taz, talt))
        else:
            out.ok()
        if 1950 <= w.year <= 2050:
            sep = float(spa.separation(az, alt, paz[i], pel[i]))
            out.extra["max_deg_from_precise"] = max(out.extra["max_deg_from_precise"], sep)
            if not sep <= 2.0:
                out.fail(c, "%.3f degrees from the precise position (az %r alt %r; precise %r %r)" % (sep, az, alt, paz[i], pel[i]))
    return out


def spaces(tier):
    th = tier == "thorough"
    places = [(la, lo) for la in (D.LATS if th else D.stride(D.LATS, 13)) for lo in (D.stride(D.LONS, 13) if th else [0.0, 105.1786, -179.999999])]
    years = [2000, 2015, 2016, 1951, 2050] + ([1950, 1999, 2024, 2049] if th else [])
    days = []
    k = 0
    for y in years:
        for m, d in D.days(y):
            for c in (D.CLOCK if th else D.stride(D.CLOCK, 5)):
                for j in range(2 if th else 1):
                    la, lo = places[(k * 7 + j * 3) % len(places)]
                    days.append([D.from_dt(D.datetime.datetime(y, m, d, *c), D.OFFSETS[k % len(D.OFFSETS)] if k % 3 == 0 else 0), la, lo, "math" if k % 2 else "numpy"])
                    k += 1
    grid = [[w, la, lo, "math" if i % 2 else "numpy"] for i, (w, la, lo) in enumerate(D.product(
        [D.W(y, m, d, h, 31) for y, m, d in ((2016, 2, 29), (2015, 6, 21), (2016, 9, 22), (2014, 12, 31), (2016, 12, 31), (2020, 3, 20)) for h in range(0, 24, 1 if th else 4)],
        D.LATS if th else D.stride(D.LATS, 31), D.WIDE_LONS if th else D.stride(D.WIDE_LONS, 15)))]
    edge = [[w, la, lo, b] for y in (1900, 1904, 2000, 2100, 2016, 2017, 1, 9998) for w in
            [D.W(y, m, d, h, mi, s, us) for m, d in ((1, 1), (2, 28), (3, 1), (12, 30), (12, 31)) for h, mi, s, us in ((0, 0, 0, 0), (23, 59, 59, 999999), (12, 0, 0, 0))] +
            ([D.W(y, 2, 29, 12)] if D.leap(y) else []) for la, lo in ((45.0, 13.0), (-45.0, -120.0), (0.0, 0.0)) for b in api.BACKENDS]
    minutes = [[D.W(2016, mo, dy, h, mi, s), la, lo, "math" if mi % 2 else "numpy"] for mo, dy in ((3, 20), (8, 3)) for h in range(24) for mi in range(0, 60, 1 if th else 3)
               for s in ((0, 59) if th else (59,)) for la, lo in ((10.0, 30.0), (-35.0, 150.0), (80.0, -60.0))]
    cor = [[c[0], c[1], c[2], c[6]] for c in corners.positions()] + [[c[0], c[1] / 2 + 1, c[2] - 360, b] for c in corners.positions()[::1 if th else 5] for b in api.BACKENDS]
    return [Space("written corners", cor, check, chunk=100), Space("calendar edges", edge, check, chunk=250), Space("every day", days, check, chunk=250), Space("places", grid, check, chunk=250),
            Space("every minute", minutes, check, chunk=250)]
