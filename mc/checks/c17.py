"""Explicit-state model of the Delta-T table: an automaton over UTC months whose state is the tabulated value, holding at
both ends.  The real get_delta_t is executed in every month of years 1 to 9998 and on both sides of every month end of
the table (and beyond its ends), at every UTC offset of the alphabet and after other calls."""
import datetime

from .. import corners, domains as D
from ..core import Space, Outcome
from ..ref import timeref as T
from .. import api

PROP = "C17"


def one(out, case, w):
    d = D.dt(w)
    u = T.utc_fields(d)
    r = api.outcome(api.solartime.get_delta_t, d)
    out.call()
    want = T.delta_t(u.year, u.month)
    if r[0] != "ok":
        out.fail(case, "get_delta_t raised %s: %s" % r[1:])
    elif not abs(r[1] - want) <= 1e-9:
        out.fail(case, "Delta-T %r at UTC %s, published %r" % (r[1], u, want))
    else:
        out.ok()


def single(cases):
    out = Outcome()
    for w in cases:
        one(out, w, w)
    return out


def history(cases):
    out = Outcome()
    for h in cases:
        for w in h:
            one(out, h, w)
    return out


def steps(cases):
    """consecutive months: bounded change, bounded value"""
    out = Outcome()
    for y, m in cases:
        a = api.outcome(api.solartime.get_delta_t, D.dt(D.W(y, m, 15)))
        b = api.outcome(api.solartime.get_delta_t, D.dt(D.W(y + m // 12, m % 12 + 1, 15)))
        out.call(2)
        if a[0] != "ok" or b[0] != "ok":
            out.fail([y, m], "raised %r %r" % (a, b))
        elif abs(a[1] - b[1]) > 0.15 or not 43 <= a[1] <= 68:
            out.fail([y, m], "Delta-T jumps from %r to %r" % (a[1], b[1]))
        else:
            out.ok()
    return out


def spaces(tier):
    thorough = tier == "thorough"
    walk = [D.W(y, m, d, *c) for y in range(1, 9999) for m in range(1, 13)
            for d, c in ((1, (0, 0, 0, 0)), (D.mlen(y, m), (23, 59, 59, 999999)))
            if thorough or 1940 <= y <= 2110 or (m in (1, 2, 6, 12) and (y % 10 == 0 or y < 30))]
    clocks = D.stride(D.CLOCK, 22 if thorough else 3)
    deltas = [-86400 * 10 ** 6, -3600 * 10 ** 6, -10 ** 6, -1, 0, 1, 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6]
    offs = D.OFFSETS if thorough else D.stride(D.OFFSETS, 7) + [3600 * 14]
    cases = [D.from_dt(datetime.datetime(y + m // 12, m % 12 + 1, 1) + datetime.timedelta(microseconds=de), off)
             for y in range(1971, 2018) for m in range(1, 13) for de in deltas for off in offs]
    alpha = [D.W(1960, 5, 5), D.W(1973, 1, 31, 23, 59), D.W(1973, 2, 1), D.W(1973, 3, 5), D.W(1973, 12, 31), D.W(1974, 1, 1),
             D.W(1974, 2, 1), D.W(1999, 12, 31, 23, 30), D.W(2000, 1, 1, 0, 30), D.W(2000, 1, 1, 0, 30, 0, 0, 3600),
             D.W(2000, 2, 29), D.W(2013, 12, 1), D.W(2014, 1, 1), D.W(2014, 4, 30), D.W(2014, 5, 1), D.W(2015, 1, 1),
             D.W(2100, 1, 1)]
    return [Space("written corners", corners.instants(), single, chunk=100), Space("month-walk", walk, single, chunk=2000),
            Space("month-steps", [[y, m] for y in range(1965, 2031) for m in range(1, 13)], steps, chunk=200),
            Space("day-walk", [w for y in range(1972, 2016) for w in D.instants_calendar(y, clocks)], single, chunk=4000),
            Space("edges-x-offsets", cases, single, chunk=4000),
            Space("call-histories", D.product(*[alpha] * (3 if thorough else 2)), history, chunk=400)]
