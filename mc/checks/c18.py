"""Explicit-state walk of the proleptic Gregorian calendar: the model's state is (day number, microsecond of the day),
kept with integer arithmetic; every transition of the clock (microsecond, second, minute, hour, day, month, year carry) of
the alphabet is taken and the real Julian-day functions are executed on both sides.  Compared exactly (rational
arithmetic) with the model to 0.1 ms."""
import datetime
from fractions import Fraction as F

from .. import corners, domains as D
from ..core import Space, Outcome
from ..ref import timeref as T
from .. import api

PROP = "C18"
TOL = F(1, 10000)     # seconds
st = api.solartime


def exact(u):
    """(TT, UT) Julian days as rationals"""
    day, us = T.julian_utc(u)
    ls = T.leap_seconds(u.year, u.month)
    tt = F(day) + (F(us, 10 ** 6) + ls + F(32184, 1000)) / 86400
    ut = tt - F(round(T.delta_t(u.year, u.month) * 10000), 10000) / 86400
    return tt, ut


def one(out, case, w):
    d = D.dt(w)
    u = T.utc_fields(d)
    tt, ut = exact(u)
    out.call(2)
    for name, want in (("get_julian_ephemeris_day", tt), ("get_julian_solar_day", ut)):
        r = api.outcome(getattr(st, name), d)
        if r[0] != "ok":
            out.fail(case, "%s raised %s: %s" % (name, r[1], r[2]))
        elif not (r[1] == r[1] and abs(F(float(r[1])) - want) * 86400 <= TOL):
            out.fail(case, "%s = %.9f at UTC %s, exact %.9f (off by %.6f s)" %
                     (name, r[1], u, float(want), float((F(float(r[1])) - want) * 86400)))
        else:
            out.ok()


def single(cases):
    out = Outcome()
    for w in cases:
        one(out, w, w)
    return out


def stepped(cases):
    """[instant, step in microseconds, offset of the second writing]: the difference is the elapsed time when the leap
    seconds and Delta-T agree"""
    out = Outcome()
    for case in cases:
        w, step, off2 = case
        a = D.dt(w)
        ub = T.utc_fields(a) + datetime.timedelta(microseconds=step)
        b = D.dt(D.from_dt(ub, off2))
        ua = T.utc_fields(a)
        same_l = T.leap_seconds(ua.year, ua.month) == T.leap_seconds(ub.year, ub.month)
        same_d = same_l and T.delta_t(ua.year, ua.month) == T.delta_t(ub.year, ub.month)
        for name, same in (("get_julian_ephemeris_day", same_l), ("get_julian_solar_day", same_d)):
            ra, rb = api.outcome(getattr(st, name), a), api.outcome(getattr(st, name), b)
            out.call(2)
            if ra[0] != "ok" or rb[0] != "ok":
                out.fail(case, "%s raised %r %r" % (name, ra, rb))
            elif same and not abs((F(float(rb[1])) - F(float(ra[1]))) * 86400 - F(step, 10 ** 6)) <= 2 * TOL:
                out.fail(case, "%s: %.9f -> %.9f for a step of %g s" % (name, ra[1], rb[1], step / 1e6))
            else:
                out.ok()
    return out


def centuries(cases):
    out = Outcome()
    for jd in cases:
        want = (F(jd) - 2451545) / 36525
        got = (api.outcome(st.get_julian_century, jd), api.outcome(st.get_julian_ephemeris_century, jd),
               api.outcome(lambda x: st.get_julian_ephemeris_millennium(x) * 10, float(want)))
        out.call(3)
        bad = [g for g in got if g[0] != "ok" or not abs(F(float(g[1])) - want) <= F(1, 10 ** 12) * (1 + abs(want))]
        if bad:
            out.fail(jd, "centuries from J2000 %r, exact %.12f" % (bad, float(want)))
        else:
            out.ok(3)
    return out


def spaces(tier):
    th = tier == "thorough"
    clocks = D.CLOCK if th else D.stride(D.CLOCK, 4)
    sp = [Space("written corners", corners.instants(), single, chunk=100), Space("years-x-months", D.instants_boundaries(range(1, 9999) if th else D.YEARS + D.FAR_YEARS), single, chunk=2000)]
    # every second of a day boundary hour, every minute of a day, several microsecond patterns
    secs = [D.W(2016, 2, 29, h, m, s, us) for h in (range(24) if th else (0, 11, 12, 23)) for m in range(60)
            for s in range(0, 60, 1 if th else 7) for us in (0, 1, 400, 50499, 123456, 500000, 999500, 999999)]
    sp.append(Space("clock-of-a-day", secs, single, chunk=2000))
    yrs = range(1900, 2101, 1 if th else 25)
    sp.append(Space("calendar-days", [w for y in sorted(set(yrs) | {1969, 1970, 1972, 1999, 2000, 2015, 2016, 2024, 2025})
                                      for w in D.instants_calendar(y, clocks)], single, chunk=2000))
    base = D.instants_boundaries([1, 4, 1582, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2016, 2038, 2100, 9998] if not th
                                 else D.YEARS)
    offs = D.OFFSETS if th else D.stride(D.OFFSETS, 7)
    offc = []
    for w in base[::1 if th else 3]:
        for off in offs:
            u = datetime.datetime(*w[:7])
            if off and not (datetime.datetime(1, 1, 3) < u < datetime.datetime(9998, 12, 30)):
                continue
            offc.append(D.from_dt(u, off))
    sp.append(Space("boundaries-x-offsets", offc, single, chunk=2000))
    steps = [1, 1000, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6, 30 * 86400 * 10 ** 6, 366 * 86400 * 10 ** 6]
    sc = [[w, s, o] for w in base if 3 < w[0] < 9990 for s in steps for o in (0, 5 * 3600 + 1800)]
    sp.append(Space("steps", sc[::1 if th else 2], stepped, chunk=1000))
    jds = sorted({x + f for x in range(1721426, 5373120, 365 if th else 5000) for f in (0.0, 0.5, 0.25)} |
                 {2451545.0, 2451544.5, 2415020.0, 2440587.5, 2460000.123456, 0.0, 2488069.5})
    sp.append(Space("centuries", jds, centuries, chunk=2000))
    return sp
