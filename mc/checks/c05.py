"""Differential enumeration over writings of the same instant: every instant-dependent function x instants (calendar edges,
leap-second and Delta-T edges, DST folds and gaps) x time-zone writings (fixed offsets to the second, DST zones, a zone that
skipped a day) x backends x TZ settings of the process, compared with the value for the UTC writing."""
import datetime
import os
import time

from .. import domains as D, zones
from ..core import Space, Outcome
from .. import api

PROP = "C05"
PLACES = [(42.2, -71.4), (-33.9, 151.2), (71.0, 179.5)]
EXTRA = dict(elevation=120.0, temperature=290.0, pressure=99000.0, altitude_deg=33.3, ghi_data=500.0, SC=1361.0, TY=365,
             AM=1.5, TL=2.0)


def later(when, minutes):
    """elapsed time, also across a change of the clocks"""
    return (when.astimezone(D.UTC) + datetime.timedelta(minutes=minutes)).astimezone(when.tzinfo)


def call(name, when, place):
    vals = dict(EXTRA, when=when, latitude_deg=place[0], longitude_deg=place[1])
    if name == "simulate.simulate_span":
        rows = list(api.simulate.simulate_span(place[0], place[1], [100.0] * 361, when, later(when, 50), 25))
        return [r[1:] for r in rows] + [(r[0] - datetime.datetime(1, 1, 1, tzinfo=D.UTC)).total_seconds() for r in rows]
    if name == "simulate.datetime_range":
        rows = list(api.simulate.datetime_range(when, later(when, 50), 12.5))
        return [(r - datetime.datetime(1, 1, 1, tzinfo=D.UTC)).total_seconds() for r in rows]
    return api.fn(name)(*[vals[p] for p in api.TIMED[name]])


# offsets with a fraction of a second, as timezone() takes them
FRACTIONS = [0.5, -0.5, 0.9, 1e-6, -1e-6, 20.9, 3600.25, -3599.999999, 20700.1, -34199.999999, 86399.999999, -86399.999999]
# offsets with a name that is that of another, or says nothing
NAMED = [[3600, "UTC"], [-18000, "UTC"], [50400, "GMT"], [0, "EST"], [-34200, ""], [20700, "UTC+01:00"], [0, "UTC"]]
FUNCS = api.INSTANT_ONLY + ["simulate.simulate_span", "simulate.datetime_range"]


def writings(cases):
    """[instant, writings, backend, place index, TZ of the process]"""
    out = Outcome()
    for c in cases:
        inst, hows, b, pi, tz = c
        u = datetime.datetime(*inst[:7])
        os.environ["TZ"] = tz
        time.tzset()
        api.backend(b)
        try:
            for name in FUNCS:
                ref = api.outcome(call, name, u.replace(tzinfo=D.UTC), PLACES[pi])
                out.call()
                for how in hows:
                    w = zones.write(u, how)
                    r = api.outcome(call, name, w, PLACES[pi])
                    out.call()
                    if r[0] != ref[0] or r[0] == "raise" and r[1] != ref[1] or r[0] == "ok" and not api.close(r[1], ref[1], angle=True):
                        out.fail([inst, [how], b, pi, tz], "%s: %r for %s, %r for the same instant in UTC" %
                                 (name, r[1:], w.isoformat(), ref[1:]))
                    else:
                        out.ok()
        finally:
            os.environ["TZ"] = "UTC"
            time.tzset()
    return out


def process_tz(cases):
    """[instant, offset, backend, TZ]: the process's own zone changes nothing"""
    out = Outcome()
    for c in cases:
        inst, how, b, pi, tz = c
        u = datetime.datetime(*inst[:7])
        w = zones.write(u, how)
        api.backend(b)
        os.environ["TZ"] = "UTC"
        time.tzset()
        ref = [api.outcome(call, n, w, PLACES[pi]) for n in FUNCS]
        os.environ["TZ"] = tz
        time.tzset()
        try:
            for n, r0 in zip(FUNCS, ref):
                r = api.outcome(call, n, w, PLACES[pi])
                out.call(2)
                if r[0] != r0[0] or r[0] == "ok" and not api.close(r[1], r0[1], angle=True):
                    out.fail(c, "%s: %r with TZ=%s, %r with TZ=UTC" % (n, r[1:], tz, r0[1:]))
                else:
                    out.ok()
        finally:
            os.environ["TZ"] = "UTC"
            time.tzset()
    return out


class Plain(datetime.datetime):
    """as pendulum, freezegun and others have"""


class Named(datetime.datetime):
    """a class with an attribute of its own, an own text and own arithmetic results"""

    def __str__(self):
        return "moment"
    __repr__ = isoformat = __str__

    def __format__(self, spec):
        return "moment"

    def ctime(self):
        return "moment"

    @property
    def name(self):
        return "moment"


CLASSES = dict(plain=Plain, named=Named)
ALL = FUNCS + api.SUNRISE


def classes(cases):
    """[instant, writing, class, backend, place index]: an instance of a subclass of datetime is worth as much as a datetime"""
    out = Outcome()
    for c in cases:
        inst, how, k, b, pi = c
        u = datetime.datetime(*inst[:7])
        w = zones.write(u, how)
        x = CLASSES[k](w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond, w.tzinfo, fold=w.fold)
        api.backend(b)
        for name in ALL:
            a, r = api.outcome(call, name, w, PLACES[pi]), api.outcome(call, name, x, PLACES[pi])
            out.call(2)
            if name in api.SUNRISE and a[0] == r[0] == "ok":
                # offsets too
                plain = lambda v: [(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, t.utcoffset()) for t in (v if isinstance(v, tuple) else (v,))]  # noqa: E731
                good = plain(a[1]) == plain(r[1])
            else:
                good = a[0] == r[0] and (a[0] == "raise" and a[1] == r[1] or a[0] == "ok" and api.close(r[1], a[1], angle=True))
            if not good:
                out.fail(c, "%s: %r for an instance of a subclass (%s), %r for the datetime %s" % (name, r[1:], k, a[1:], w.isoformat()))
            else:
                out.ok()
    return out


def instants(th):
    res = []
    for y, m, d in [(1, 1, 5), (1000, 3, 1), (1911, 3, 11), (1969, 12, 31), (1972, 1, 7), (1972, 7, 1), (1973, 2, 1), (1999, 1, 1),
                    (2000, 2, 29), (2000, 3, 1), (2003, 12, 31), (2004, 12, 31), (2011, 12, 30), (2012, 7, 1), (2014, 4, 30), (2014, 5, 1), (2017, 1, 1),
                    (2020, 3, 29), (2020, 10, 25), (2021, 9, 26), (2024, 2, 29), (2025, 12, 31), (2100, 3, 1), (9998, 12, 30)]:
        for h, mi, s, us in ((0, 0, 0, 0), (0, 30, 0, 0), (0, 59, 59, 999999), (1, 0, 0, 0), (1, 30, 15, 500000), (5, 15, 0, 0),
                             (9, 45, 0, 1), (11, 59, 59, 0), (12, 0, 0, 0), (15, 0, 0, 0), (18, 30, 29, 0), (23, 59, 59, 999999)):
            res.append(D.W(y, m, d, h, mi, s, us))
    return res if th else res[::1]


def spaces(tier):
    th = tier == "thorough"
    ins = instants(th)
    hows = D.OFFSETS[1:] + FRACTIONS + NAMED + list(zones.ZONES)
    cases = []
    for i, w in enumerate(ins):
        for b in api.BACKENDS:
            for k in range(3 if th else 1):
                hs = hows if th else [h for j, h in enumerate(hows) if (i + j) % 4 == 0 or isinstance(h, str)]
                cases.append([w, hs, b, (i + k) % 3, "UTC"])
    # folds of the DST zones, both sides, minute by minute around the change
    folds = []
    for base in (datetime.datetime(2020, 10, 25, 1), datetime.datetime(2020, 3, 29, 1), datetime.datetime(2021, 3, 28, 3),
                 datetime.datetime(2021, 9, 26, 4), datetime.datetime(2022, 3, 27, 15), datetime.datetime(2022, 9, 25, 15)):
        for m in range(-90, 91, 5 if th else 30):
            t = base + datetime.timedelta(minutes=m)
            for b in api.BACKENDS:
                folds.append([D.from_dt(t)[:7] + [0], ["berlin", "santiago", "lordhowe", 7200], b, 1, "UTC"])
    # hours that belong to two months, read twice
    months = []
    for y in ((1960, 1972, 1973, 1974, 1985, 1990, 1997, 2005, 2012, 2013, 2014, 2016, 2017, 2026, 2100) if not th else range(1970, 2030)):
        for m in (1, 3, 5, 7, 9, 11):
            for k, mi in enumerate((-60, -31, -1, 0, 1, 29, 59)):
                t = datetime.datetime(y, m, 1) + datetime.timedelta(minutes=mi, seconds=k, microseconds=(0, 999999)[k % 2])
                months.append([D.from_dt(t)[:7] + [0], ["monthly"], api.BACKENDS[(y + m + k) % 2], k % 3, "UTC"])
    tzs = ["EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "XXX-14", "YYY+12", "NZST-12NZDT,M9.5.0,M4.1.0/3"]
    ptz = [[w, how, b, i % 3, tz] for i, w in enumerate(ins[::3 if th else 11]) for how in (0, 3600, "berlin") for b in api.BACKENDS for tz in tzs]
    cl = [[w, how, k, b, i % 3] for i, w in enumerate(ins[::1 if th else 5]) for how in (0, 20700, -34200.5, "berlin", "lordhowe") for k in CLASSES for b in api.BACKENDS]
    return [Space("classes", cl, classes, chunk=20), Space("writings", cases, writings, chunk=10), Space("month-folds", months, writings, chunk=10), Space("dst-folds", folds, writings, chunk=10),
            Space("process-tz", ptz, process_tz, chunk=20)]
