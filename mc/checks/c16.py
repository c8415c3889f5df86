"""Explicit-state model of TAI-UTC: an automaton over UTC months (state = accumulated leap seconds, transition =
month end, with or without a leap second).  The real get_leap_seconds is executed in every state, on both sides of
every transition, with the instant written at every UTC offset of the alphabet and after every other call of a
small call alphabet; values and warnings are compared with the automaton."""
import datetime

from .. import corners, domains as D
from ..core import Space, Outcome
from ..ref import timeref as T
from .. import api

PROP = "C16"
US = datetime.timedelta(microseconds=1)


def model(u):
    return T.leap_seconds(u.year, u.month)


def must_warn(u):
    return (u.year, u.month) > (T.LAST_TABLE_YEAR + 1, 6)


def one(out, case, w):
    d = D.dt(w)
    u = T.utc_fields(d)
    with D.heard() as log:
        r = api.outcome(api.solartime.get_leap_seconds, d)
    out.call()
    if r[0] != "ok":
        out.fail(case, "get_leap_seconds raised %s: %s" % r[1:])
    elif r[1] != model(u):
        out.fail(case, "leap seconds %r at UTC %s, official %d" % (r[1], u, model(u)))
    elif bool(log) != must_warn(u):
        out.fail(case, "warning %s at UTC %s, expected %s" % (bool(log), u, must_warn(u)))
    else:
        out.ok()


def single(cases):
    out = Outcome()
    for w in cases:
        one(out, w, w)
    return out


def history(cases):
    out = Outcome()
    for h in cases:
        for w in h:
            one(out, h, w)
    return out


def edge_instants(years):
    """both sides of every month end of the years, as naive UTC"""
    res = []
    for y in years:
        for m in range(1, 13):
            nxt = datetime.datetime(y + m // 12, m % 12 + 1, 1)
            for delta in (-US, 0 * US):
                res.append(nxt + delta)
    return res


def spaces(tier):
    thorough = tier == "thorough"
    sp = [Space("written corners", corners.instants(), single, chunk=100)]
    # 1. walk: every month, three moments of it
    walk = [D.W(y, m, d, *c) for y in range(1, 9999) for m in range(1, 13)
            for d, c in ((1, (0, 0, 0, 0)), (D.mlen(y, m), (23, 59, 59, 999999)))
            if thorough or 1955 <= y <= 2110 or (m in (1, 2, 6, 7, 12) and (y % 10 == 0 or y < 30))]
    sp.append(Space("month-walk", walk, single, chunk=2000))
    # 2. every day of the table's years (and around), at several clocks
    clocks = D.stride(D.CLOCK, 22 if thorough else 3)
    sp.append(Space("day-walk", [w for y in range(1970, 2031) for w in D.instants_calendar(y, clocks)], single,
                    chunk=4000))
    # 3. both sides of every month end, written at every offset
    deltas = [-86400 * 10 ** 6, -3600 * 10 ** 6, -60 * 10 ** 6, -10 ** 6, -1, 0, 1, 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6]
    yrs = range(1971, 2028)
    offs = D.OFFSETS if thorough else D.stride(D.OFFSETS, 9) + [3600 * 14, -3600 * 12]
    cases = []
    for y in yrs:
        for m in (range(1, 13) if thorough else (3, 6, 9, 12)):
            nxt = datetime.datetime(y + m // 12, m % 12 + 1, 1)
            for de in deltas:
                for off in offs:
                    cases.append(D.from_dt(nxt + datetime.timedelta(microseconds=de), off))
    sp.append(Space("edges-x-offsets", cases, single, chunk=4000))
    # 4. call histories: no earlier call may influence the next one
    alpha = [D.W(1960, 5, 5), D.W(1972, 6, 30, 23, 59, 59, 999999), D.W(1972, 7, 1), D.W(1979, 12, 31, 23), D.W(1980, 1, 1),
             D.W(1999, 1, 1), D.W(2005, 12, 31, 23, 30), D.W(2006, 1, 1, 0, 30), D.W(2006, 1, 1, 0, 30, 0, 0, 3600),
             D.W(2015, 6, 30), D.W(2015, 7, 1), D.W(2016, 12, 31), D.W(2017, 1, 1), D.W(2025, 12, 31), D.W(2026, 6, 30),
             D.W(2026, 7, 1), D.W(2100, 1, 1)]
    n = 3 if thorough else 2
    sp.append(Space("call-histories", D.product(*[alpha] * n), history, chunk=400))
    return sp
