"""The sun moves evenly: exhaustive sweeps along time.  Precise: every pair of neighbouring instants of ladders (microseconds, seconds, minutes, days) laid around every month boundary, leap second, era,
table end and offset change of an alphabet, and along whole days; the angle between the two directions must lie between the slowest and the fastest apparent motion.  Fast: the same laws at its resolution
of one minute, with the step of declination and equation of time allowed once a day at 0h UTC.  Julian days and sidereal times advance evenly along the same ladders."""
import datetime
import math

from .. import corners, domains as D
from ..core import Space, Outcome
from .. import zones
from ..ref import timeref
from .. import api
from .c36 import vector, angle

PROP = "C37"
SITES = [(0.0, 0.0), (52.0, 13.4), (-33.9, 151.2), (71.0, -156.0), (-89.0, 10.0), (10.0, 179.9)]
RATE = 15.0411 / 3600 + 1.2e-5 + 3e-6        # degrees a second: the sky turns 15.0411 arc seconds, the sun drifts at most 1.02 degrees a day, refraction and parallax aside


def slowest(degrees):
    """great circle between the ends of a turn by that angle along the tropic"""
    return math.degrees(2 * math.asin(math.cos(math.radians(23.46)) * math.sin(math.radians(min(max(degrees, 0.0), 180.0)) / 2)))


TABLE = 0.16 * RATE                     # Delta-T steps by up to 0.15 s from month to month
GAPS = [0, 1, 1000, 1000000, 2000000, 30000000, 59999999, 60000000, 3600000000]    # microseconds after the start of a ladder


def look(kind, lat, lon, t):
    if kind == "fast":
        az, alt = api.fn("solar.get_azimuth_fast")(lat, lon, t), api.fn("solar.get_altitude_fast")(lat, lon, t)
    else:
        az, alt = api.fn("solar.get_position")(lat, lon, t, 0.0, 288.15, 0.0)
    return vector(lat, lon, az, alt)


def allowed(kind, t0, t1):
    """(least, most) angle in degrees between the directions at two UTC datetimes"""
    dt = (t1 - t0).total_seconds()
    if kind == "fast":
        m0, m1 = t0.replace(second=0, microsecond=0), t1.replace(second=0, microsecond=0)
        dt = (m1 - m0).total_seconds()
        step = 0.55 if m0.date() != m1.date() else 0.0     # declination up to 0.4 degrees and equation of time up to 0.13 degrees from day to day
        least = 0.0 if step or dt >= 21600 else slowest(0.25 / 60 * dt) - 1e-6
        return max(0.0, least), 0.25 / 60 * dt + step + 1e-6
    leap = timeref.leap_seconds(t1.year, t1.month) - timeref.leap_seconds(t0.year, t0.month)
    table = TABLE if (t0.year, t0.month) != (t1.year, t1.month) else 0.0
    eps = 2e-8 + 4e-6          # the Julian day of a double has a grain of 40 microseconds, i.e. 2e-7 degrees
    return max(0.0, slowest(15.0 / 3600 * dt) - 1.5e-5 * dt - table - eps) if dt < 21600 else 0.0, RATE * (dt + leap) + table + eps


def ladder(cases):
    """[kind, start of the ladder, offset in which the instants are written, place, backend]"""
    out = Outcome()
    for c in cases:
        kind, w, off, (lat, lon), b = c
        api.backend(b)
        tz = zones.ZONES[off] if isinstance(off, str) else datetime.timezone(datetime.timedelta(seconds=off))
        mid = D.dt(w)
        ts = [mid + datetime.timedelta(microseconds=s * g) for s in (-1, 1) for g in GAPS]
        ts = sorted(set(ts))
        compare(out, c, kind, ts, tz, lat, lon)
    return out


def compare(out, c, kind, ts, tz, lat, lon):
    prev = None
    for t in ts:
        r = api.outcome(look, kind, lat, lon, t.astimezone(tz))
        out.call()
        if r[0] != "ok":
            out.fail(c, "%s at %s" % (r[1:], t))
            return
        if prev is not None:
            lo, hi = allowed(kind, prev[0], t)
            d = angle(prev[1], r[1])
            if not lo <= d <= hi:
                out.fail(c, "from %s to %s the sun moved %r degrees, expected %r to %r" % (prev[0], t, d, lo, hi))
                return
            out.ok()
        prev = (t, r[1])


def sweep(cases):
    """[kind, first instant, step in seconds, number of steps, place, backend]"""
    out = Outcome()
    for c in cases:
        kind, w, step, n, (lat, lon), b = c
        api.backend(b)
        t0 = D.dt(w)
        compare(out, c, kind, [t0 + datetime.timedelta(seconds=step * k) for k in range(n + 1)], D.UTC, lat, lon)
    return out


def daily(cases):
    """[kind, year, clock, place, backend]: day after day at the same UTC time the sun comes back to within 0.56 degrees"""
    out = Outcome()
    for c in cases:
        kind, year, clock, (lat, lon), b = c
        api.backend(b)
        t = datetime.datetime(year, 1, 1, *clock, tzinfo=D.UTC)
        prev = None
        for k in range(368):
            r = api.outcome(look, kind, lat, lon, t + datetime.timedelta(days=k))
            out.call()
            if r[0] != "ok":
                out.fail(c, "%s" % (r[1:],))
                break
            if prev is not None:
                d = angle(prev, r[1])
                # at least the equation of time or the declination changes: never both at rest, the sun moves by 0.06 degrees a day or more ... and at most 0.56
                if not (d <= 0.56 and (kind == "fast" or d >= 0.003)):
                    out.fail(c, "day %d to %d of %d: moved %r degrees" % (k, k + 1, year, d))
                    break
                out.ok()
            prev = r[1]
    return out


def scales(cases):
    """[start of the ladder]: Julian days and the sidereal time they give advance with the clock"""
    out = Outcome()
    for c in cases:
        mid = D.dt(c[0])
        ts = sorted({mid + datetime.timedelta(microseconds=s * g) for s in (-1, 1) for g in GAPS})
        prev = None
        for t in ts:
            r = api.outcome(lambda: (api.fn("solartime.get_julian_solar_day")(t), api.fn("solartime.get_julian_ephemeris_day")(t)))
            out.call(2)
            if r[0] != "ok":
                out.fail(c, "%s" % (r[1:],))
                break
            s = api.outcome(lambda: (api.fn("solar.get_mean_sidereal_time")(r[1][0]), api.fn("solartime.get_delta_t")(t)))
            if s[0] != "ok":
                out.fail(c, "%s" % (s[1:],))
                break
            if prev is not None:
                dt = (t - prev[0]).total_seconds()
                leap = timeref.leap_seconds(t.year, t.month) - timeref.leap_seconds(prev[0].year, prev[0].month)
                table = 0.16 if (t.year, t.month) != (prev[0].year, prev[0].month) else 0.0
                u, e = ((x - y) * 86400 for x, y in zip(r[1], prev[1]))
                st = D.angle_diff(s[1][0], prev[2])
                if abs(e - dt - leap) > 1.5e-4 or abs(u - dt - leap) > 1.5e-4 + table or abs(s[1][1] - prev[3]) > (0.15 if table else 0) + 1e-9:
                    out.fail(c, "from %s to %s: TT +%r s, UT +%r s" % (prev[0], t, e, u))
                    break
                # the sidereal clock gains 3 m 56.555 s a day
                if abs(D.angle_diff(st, u * 15.04106864 / 3600)) > 3e-6:
                    out.fail(c, "from %s to %s: sidereal time +%r degrees in %r s" % (prev[0], t, st, u))
                    break
                out.ok()
            prev = (t, r[1], s[1][0], s[1][1])
    return out


def spaces(tier):
    th = tier == "thorough"
    leaps = [D.W(y + m // 12, m % 12 + 1, 1) for y, m in timeref.LEAP_AFTER] + [D.W(1972, 1, 1)]
    months = [D.W(y, m, 1) for y in (range(1950, 2051) if th else [1950, 1969, 1970, 1972, 1973, 1984, 1999, 2000, 2004, 2014, 2016, 2026, 2038, 2050]) for m in range(1, 13)]
    days = [D.W(2016, 2, 28), D.W(2016, 2, 29), D.W(2016, 3, 1), D.W(2015, 3, 1), D.W(2000, 2, 29), D.W(1900, 3, 1), D.W(2100, 3, 1), D.W(1582, 10, 15), D.W(1, 1, 2), D.W(9998, 12, 31), D.W(1970, 1, 1), D.W(2038, 1, 19, 3, 14, 8)]
    noon = [D.W(2000, 1, 1, 12), D.W(2016, 3, 20, 4, 30), D.W(2016, 6, 20, 22, 34), D.W(2003, 10, 17, 19, 30, 30)] + [D.W(2019, 1 + h // 2, 15, h) for h in range(24)]
    lad = []
    for i, w in enumerate(leaps + months + days + noon):
        for j, s in enumerate(SITES):
            if th or (i + j) % 3 == 0:
                lad.append(["precise", w, [0, 3600, -5 * 3600, 19800, -1][(i + j) % 5], s, api.BACKENDS[(i // 3 + j) % 2]])
    for i, w in enumerate(days + noon + months[:24] + months[-24:]):
        for j, s in enumerate(SITES):
            lad.append(["fast", w, [0, 3600, -5 * 3600, 19800, -1][(i + j) % 5], s, api.BACKENDS[(i + j) % 2]])
    sw = [[k, D.W(y, m, d), 60.0, 1440, s, api.BACKENDS[i % 2]] for i, (y, m, d) in enumerate([(2016, 6, 20), (2016, 12, 31), (2024, 2, 29), (1972, 6, 30)] + ([(2000, 1 + x, 28) for x in range(12)] if th else []))
          for k in ("precise", "fast") for s in (SITES if th else SITES[i % 2::2])]
    yr = [[k, y, cl, s, "math"] for i, y in enumerate(range(1950, 2050) if th else [1950, 1972, 1999, 2000, 2015, 2016, 2024, 2049]) for k in ("precise", "fast") for cl in ([(0, 0, 0), (12, 0, 0)] if th else [(12, 0, 0)]) for s in [SITES[i % 6]]]
    cor = []
    for i, (z, y, m, d, h) in enumerate((("berlin", 2021, 3, 28, 1), ("berlin", 2012, 10, 28, 1), ("santiago", 2030, 9, 29, 4), ("lordhowe", 2016, 3, 27, 15), ("apia", 2011, 12, 30, 10), ("lmt", 1911, 3, 10, 23), ("monrovia", 1972, 1, 7, 0),
                                         ("kathmandu", 2016, 12, 31, 18), (50400, 1999, 12, 31, 10), (-43200, 2000, 1, 1, 12), (63003, 1990, 2, 28, 6), (-86399, 2024, 3, 1, 0), (1172, 1850, 1, 1, 0))):
        for j, s in enumerate([(45.5, 360.0), (-90.0, -180.0), (90.0, 12.0), (1e-5, 1e-5), (66.7, 541.0), (-23.4, -300.0)]):
            for k in ("precise", "fast"):
                cor.append([k, D.W(y, m, d, h), z, list(s), api.BACKENDS[(i + j) % 2]])
    return [Space("written corners", cor, ladder, chunk=10), Space("ladders", lad, ladder, chunk=20), Space("sweeps", sw, sweep, chunk=2), Space("years", yr, daily, chunk=2), Space("scales", [[w] for w in leaps + months + days + noon], scales)]
