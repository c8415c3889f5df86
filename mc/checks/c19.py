"""Solar time, hour angle, equation of time and declination: textbook reference model executed against the real functions for every day number
1..366, every minute of the day, all longitudes of the alphabet, every day of several years, zones of writing and both backends; the hour angle is
also compared with the precise local hour angle of the published algorithm."""
import numpy as np

from .. import corners, domains as D
from ..core import Space, Outcome
from ..ref import spa, textbook, timeref as T
from .. import api

PROP = "C19"


def check(cases):
    """[when, lon, backend]"""
    out = Outcome(extra=dict(max_deg_from_precise=0.0))
    whens = [D.dt(c[0]) for c in cases]
    jd, jde = np.array([T.jd(w) for w in whens]), np.array([T.jde(w) for w in whens])
    tp = spa.time_part(jd, jde)
    H = (tp["nu"] + np.array([float(c[1]) for c in cases]) - tp["alpha"])
    for i, (c, w) in enumerate(zip(cases, whens)):
        api.backend(c[2])
        rs, rh = api.outcome(api.solar.get_solar_time, c[1], w), api.outcome(api.solar.get_hour_angle, w, c[1])
        out.call(2)
        if rs[0] != "ok" or rh[0] != "ok":
            out.fail(c, "raised %r %r" % (rs[1:], rh[1:]))
            continue
        st, ha = float(rs[1]), float(rh[1])
        if not (abs(st - textbook.solar_time(w, c[1])) <= 1e-9 and abs(ha - textbook.hour_angle(w, c[1])) <= 1e-8):
            out.fail(c, "solar time %r, hour angle %r; textbook %r, %r" % (st, ha, textbook.solar_time(w, c[1]), textbook.hour_angle(w, c[1])))
            continue
        if 1950 <= w.year <= 2050:
            dev = abs(D.angle_diff(ha, H[i]))
            out.extra["max_deg_from_precise"] = max(out.extra["max_deg_from_precise"], float(dev))
            if not dev <= LIMIT:
                out.fail(c, "hour angle %r, precise %r" % (ha, H[i] % 360))
                continue
        out.ok()
    return out


LIMIT = 1.0


def day_numbers(cases):
    """[day, backend]"""
    out = Outcome()
    for c in cases:
        api.backend(c[1])
        for f, g in (("solar.equation_of_time", textbook.equation_of_time), ("solar.get_declination", textbook.declination)):
            r = api.outcome(api.fn(f), c[0])
            out.call()
            if r[0] == "ok" and abs(float(r[1]) - g(c[0])) <= 1e-9:
                out.ok()
            else:
                out.fail(c, "%s(%r) gives %r, published formula %r" % (f, c[0], r[1:], g(c[0])))
    return out


def spaces(tier):
    th = tier == "thorough"
    dn = [[n, b] for n in list(range(1, 367)) + [1.0, 80.5, 366.0] for b in api.BACKENDS]
    mins = [[D.W(2016, mo, d, h, mi, s, us), lo, b] for mo, d in ((1, 1), (2, 29), (7, 4)) for h in range(24) for mi in range(60) for s, us in (((0, 0), (59, 999999)) if th else ((29 + mi % 31, 999999),))
            for lo in ((0.0, -71.382, 179.0, 300.0) if th else (-71.382,)) for b in (api.BACKENDS if th else [api.BACKENDS[mi % 2]])]
    days, k = [], 0
    for y in ([1950, 1960, 1972, 1987, 1999, 2000, 2004, 2015, 2016, 2023, 2024, 2040, 2048, 2050] if th else [1951, 1988, 2000, 2015, 2016, 2050]):
        for m, d in D.days(y):
            for c in (D.CLOCK if th else D.stride(D.CLOCK, 4)):
                k += 1
                days.append([D.from_dt(D.datetime.datetime(y, m, d, *c), D.OFFSETS[k % len(D.OFFSETS)] if k % 2 else 0), D.WIDE_LONS[k % len(D.WIDE_LONS)], api.BACKENDS[k // 2 % 2]])
    lons = [[w, lo, b] for w in [D.W(2016, 3, 20, 15, 20, 59), D.W(2003, 10, 17, 0, 59, 30, 0, -25200), D.W(1900, 12, 31, 23, 59, 59, 999999), D.W(2100, 3, 1), D.W(1, 1, 2), D.W(1582, 10, 10, 12), D.W(1752, 9, 8, 6, 30), D.W(9999, 12, 30, 18, 45), D.W(9998, 12, 31, 23, 0, 0, 0, 3600)]
            for lo in D.WIDE_LONS + [1000.5, -1234.75, 3600.0, -72000.25, 1e6] + list(range(-180, 181, 5)) for b in api.BACKENDS]
    for y in D.ALL_YEARS:
        for j, (m, d) in enumerate(((1, 1), (2, 28), (3, 1), (6, 21), (10, 10), (12, 30))):
            if y in (1, 9999) and j in (0, 5):
                continue
            for h, mi in ((0, 0), (9, 41), (23, 59)):
                k += 1
                days.append([D.W(y, m, d, h, mi, 7 * j, 13 * y, D.OFFSETS[k % len(D.OFFSETS)] if k % 2 else 0), D.WIDE_LONS[k % len(D.WIDE_LONS)], api.BACKENDS[k // 2 % 2]])
    cor = [[c[0], c[2], c[6]] for c in corners.positions()]
    return [Space("written corners", cor, check, chunk=100), Space("day numbers", dn, day_numbers), Space("longitudes", lons, check, chunk=250), Space("every minute", mins, check, chunk=250), Space("every day", days, check, chunk=250)]
