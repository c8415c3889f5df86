"""Simulations against a reference model of the stepping (integer microseconds) and of a row (single-moment queries): products of span x step (fractional minutes
included) x start x offset, of place x atmosphere x instant, horizons on either side of the shading threshold in every row, and every order in which the rows of
two or three running simulations can be drawn."""
import datetime
import itertools
import math

import numpy as np

from .. import corners, domains as D
from ..core import Space, Outcome
from .. import api, zones

PROP = "C24"
US = datetime.timedelta(microseconds=1)


def moments(start, end, step_us):
    """the model of the stepping: a counter over whole microseconds"""
    zone, start, end = start.tzinfo, start.replace(tzinfo=None) - (start.utcoffset() or 0 * US), end.replace(tzinfo=None) - (end.utcoffset() or 0 * US)
    span = (end - start) // US
    res, t = [], 0
    while t + step_us <= span:
        u = start + t * US
        res.append(u if zone is None else u.replace(tzinfo=datetime.timezone.utc).astimezone(zone))
        t += step_us
    return res


def stepping(cases):
    """[start, end offset, span in us, step in minutes, step in us]"""
    out = Outcome()
    for c in cases:
        w, eoff, span, step, step_us = c
        start = D.dt(w)
        end = (start + span * US).astimezone(datetime.timezone(datetime.timedelta(seconds=eoff)))
        want = moments(start, end, step_us)
        r = api.outcome(lambda: list(itertools.islice(api.simulate.datetime_range(start, end, step), len(want) + 3)))
        out.call(len(want) + 1)
        if r[0] != "ok" or r[1] != want or any(a.utcoffset() != b.utcoffset() for a, b in zip(r[1], want)):
            got = r[1:] if r[0] != "ok" else (len(r[1]), [str(x) for x in r[1][:3]], [str(x) for x in r[1][-2:]])
            out.fail(c, "moments %r; expected %d: %s .. %s" % (got, len(want), [str(x) for x in want[:2]], [str(x) for x in want[-1:]]))
        else:
            out.ok()
    return out


def long(cases):
    """[start, zone or offset, number of steps, step in us]: every moment of a very long simulation"""
    out = Outcome()
    for c in cases:
        w, how, n, us = c
        start = zones.write(datetime.datetime(*w[:7]), how)
        first = start.astimezone(D.UTC)
        end = (first + (n * us + us // 2) * US).astimezone(start.tzinfo)
        step, bad, k = datetime.timedelta(microseconds=us), None, 0
        try:
            want = first
            for t in api.simulate.datetime_range(start, end, us / 6e7):
                if k >= n or t.astimezone(D.UTC) != want:
                    bad = "moment %d is %s, expected %s" % (k, t, want if k < n else "the end")
                    break
                k += 1
                want = first + k * step
        except Exception as e:  # noqa: BLE001
            bad = "moment %d: %r" % (k, e)
        out.call(k)
        if bad is None and k != n:
            bad = "%d moments, expected %d" % (k, n)
        if bad:
            out.fail(c, bad)
        else:
            out.ok()
    return out


class Stamp(datetime.datetime):
    """a datetime of the caller's own class"""


def zoned(cases):
    """[UTC start, zone of the start, zone of the end, span in us, step in minutes, step in us, datetime class]: through the offset changes of the zone, both folds included"""
    out = Outcome()
    for c in cases:
        w, za, zb, span, step, step_us, cls = c
        u = D.dt(w).replace(tzinfo=None)
        start, end = zones.write(u, za), zones.write(u + span * US, zb)
        if cls:
            start = Stamp(start.year, start.month, start.day, start.hour, start.minute, start.second, start.microsecond, start.tzinfo, fold=start.fold)
        want = [zones.write(t, za) for t in moments(u, u + span * US, step_us)]
        r = api.outcome(lambda: list(itertools.islice(api.simulate.datetime_range(start, end, step), len(want) + 3)))
        out.call(len(want) + 1)
        key = lambda t: (t.replace(tzinfo=None, fold=0), t.fold, t.utcoffset())  # noqa: E731 - equality of datetimes of one zone ignores the fold
        if r[0] == "ok" and [key(t) for t in r[1]] == [key(t) for t in want]:
            out.ok()
        else:
            out.fail(c, "moments %r; expected %r" % ([(str(t), t.fold) for t in r[1]][:6] if r[0] == "ok" else r[1:], [(str(t), t.fold) for t in want][:6]))
    return out


def zoned_rows(cases):
    """[lat, lon, UTC start, zone, rows, step]: the rows of a simulation are those of the same span written in UTC"""
    out = Outcome()
    api.backend("math")
    for c in cases:
        lat, lon, w, z, n, step = c
        u = D.dt(w).replace(tzinfo=None)
        end = u + n * datetime.timedelta(microseconds=round(step * 60e6))
        hz = horizon("mixed", lat)
        res = [api.outcome(lambda: list(api.simulate.simulate_span(lat, lon, hz, zones.write(u, x), zones.write(end, x), step))) for x in (z, 0)]
        out.call(2)
        if any(r[0] != "ok" or len(r[1]) != n for r in res) or any((a[0].astimezone(zones.UTC) - b[0]) or a[1:3] != b[1:3] or a[3:] != b[3:] for a, b in zip(res[0][1], res[1][1])):
            out.fail(c, "rows %r; written in UTC %r" % tuple(r[1:] if r[0] != "ok" else [(str(x[0]),) + x[1:] for x in r[1][:5]] for r in res))
        else:
            out.ok(n)
    return out


class Horizon:
    """a horizon that records which entries are asked for"""

    def __init__(self, entries):
        self.entries = entries

    def __getitem__(self, i):
        return self.entries[i]


def horizon(kind, i):
    if kind == "flat":
        return [380] * 360
    if kind == "closed":
        return [-1] * 360
    if kind == "index":
        return list(range(360))
    if kind == "index+":
        return [1000 + k for k in range(360)]
    if kind == "array":
        return np.arange(360.0) + 100
    if kind in ("longer", "much longer", "longer array"):        # entries past the last degree are never looked at
        h = [k for k in range(360)] + [1000 + k for k in range({"longer": 1, "much longer": 400, "longer array": 2}[kind])]
        return np.array(h) if kind == "longer array" else h
    if kind == "float":
        return [379.5 - (7 * k) % 760 / 2 for k in range(360)]
    return tuple((k * 7919 + i * 131) % 400 for k in range(360))


def sim_args(c):
    lat, lon, w, rows, step, extra, form = c[:7]
    start = D.dt(w)
    end = (start.astimezone(datetime.timezone.utc) + datetime.timedelta(microseconds=round(step * 60e6) * rows)).astimezone(start.tzinfo)
    return lat, lon, start, end, step, extra, form


def call(lat, lon, hz, start, end, step, extra, form):
    names = ["elevation", "temperature", "pressure"]
    if form == "kw":
        return api.simulate.simulate_span(latitude_deg=lat, longitude_deg=lon, horizon=hz, start_datetime=start, end_datetime=end, step_minutes=step, **extra)
    if form == "mixed":
        return api.simulate.simulate_span(lat, lon, hz, start, end, step, **extra)
    pos, kw = [], dict(extra)
    for n in names:
        if n not in kw:
            break
        pos.append(kw.pop(n))
    return api.simulate.simulate_span(lat, lon, hz, start, end, step, *pos, **kw)


def expect(lat, lon, start, end, step, extra):
    """[(time, alt, az)] by single-moment queries"""
    e = dict(api.DEFAULTS, **extra)
    return [(t, float(api.solar.get_altitude(lat, lon, t, e["elevation"], e["temperature"], e["pressure"])), float(api.solar.get_azimuth(lat, lon, t, e["elevation"])))
            for t in moments(start, end, round(step * 60e6))]


def threshold(alt):
    x = 380 * math.sin(math.radians(alt))
    return {380 - math.floor(x + 0.5 + d) for d in (-1e-7, 1e-7)}


def nearest(az):
    return {math.floor(az + 0.5 + d) % 360 for d in (-1e-7, 1e-7)}


def row_error(row, want, entries):
    """None or what is wrong with one row"""
    t, alt, az = want
    if not (isinstance(row, tuple) and len(row) == 5):
        return "row %r" % (row,)
    if row[0] != t or row[0].utcoffset() != t.utcoffset():
        return "moment %s instead of %s" % (row[0], t)
    if not abs(float(row[1]) - alt) <= 1e-9 or not abs(D.angle_diff(float(row[2]), az)) <= 1e-9:
        return "altitude, azimuth %r, %r; queries give %r, %r" % (row[1], row[2], alt, az)
    idx = [i for i in nearest(az) if entries[i] == row[4]]
    if not idx:
        return "horizon entry %r, azimuth %r has %r" % (row[4], az, [entries[i] for i in nearest(az)])
    shaded = {row[4] < th for th in threshold(alt)}
    direct = float(api.radiation.get_radiation_direct(t, alt))
    ok = (True in shaded and float(row[3]) == 0) or (False in shaded and abs(float(row[3]) - direct) <= 1e-9 * max(1, direct))
    if not ok:
        return "radiation %r with entry %r, thresholds %r, unshaded %r" % (row[3], row[4], threshold(alt), direct)
    return None


def rows(cases):
    """[lat, lon, start, rows, step, extra arguments, call form, horizon kind, backend]"""
    out = Outcome()
    for i, c in enumerate(cases):
        api.backend(c[8])
        lat, lon, start, end, step, extra, form = sim_args(c)
        want = expect(lat, lon, start, end, step, extra)
        if c[7].startswith("threshold"):
            # the entry of every azimuth met is at a distance from the threshold of its row
            hz = [400] * 360
            for t, alt, az in want:
                hz[min(nearest(az))] = min(threshold(alt)) + int(c[7][9:])
        else:
            hz = horizon(c[7], len(repr(c)))
        r = api.outcome(lambda: list(call(lat, lon, hz, start, end, step, extra, form)))
        out.call(len(want) + 1)
        if r[0] != "ok" or len(r[1]) != len(want):
            out.fail(c, "%d rows expected, got %r" % (len(want), r[1:] if r[0] != "ok" else len(r[1])))
            continue
        bad = next((m for m in (row_error(a, b, hz) for a, b in zip(r[1], want)) if m), None)
        if bad:
            out.fail(c, bad)
        else:
            out.ok(len(want))
    return out


SPANS = [
    [42.0, -70.0, D.W(2013, 9, 5, 16, 44, 0, 0, -14400), 3, 10, {}, "pos"],
    [-33.5, 151.0, D.W(2016, 2, 29, 22, 0), 3, 37.5, {"elevation": 2000.0}, "kw"],
    [66.6, 25.0, D.W(2000, 6, 20, 23, 58), 3, 1 / 60, {"temperature": 250.0, "pressure": 0.0}, "kw"],
]


def interleave(cases):
    """[which simulations, order of draws]: every row drawn equals the row the simulation gives alone"""
    out = Outcome()
    api.backend("math")
    solo, hz = {}, {}
    for k in {x for c in cases for x in c[0]}:
        lat, lon, start, end, step, extra, form = sim_args(SPANS[k])
        hz[k] = horizon("x", k)
        solo[k] = expect(lat, lon, start, end, step, extra)
    for c in cases:
        which, order = c
        gens = []
        for k in which:
            lat, lon, start, end, step, extra, form = sim_args(SPANS[k])
            gens.append(call(lat, lon, hz[k], start, end, step, extra, form))
        gens = [iter(g) for g in gens]
        at = [0] * len(gens)
        bad = None
        for g in order:
            r = api.outcome(next, gens[g], None)
            out.call()
            k, n = which[g], at[g]
            at[g] += 1
            if r[0] != "ok":
                bad = "draw %d of %d raised %r" % (n, g, r[1:])
            elif n >= len(solo[k]):
                bad = None if r[1] is None else "row after the end: %r" % (r[1],)
            elif r[1] is None:
                bad = "ended after %d rows" % n
            else:
                bad = row_error(r[1], solo[k][n], hz[k])
            if bad:
                break
        if bad:
            out.fail(c, bad)
        else:
            out.ok()
    return out


def orders(counts):
    """every order of drawing counts[i] rows from simulation i"""
    if not any(counts):
        return [[]]
    res = []
    for i, n in enumerate(counts):
        if n:
            rest = list(counts)
            rest[i] -= 1
            res += [[i] + o for o in orders(rest)]
    return res


def spaces(tier):
    th = tier == "thorough"
    S = 10 ** 6
    # (minutes given, microseconds meant)
    steps = [(1, 60 * S), (10, 600 * S), (60, 3600 * S), (1440, 86400 * S), (0.5, 30 * S), (1.5, 90 * S), (2.5, 150 * S), (0.1, 6 * S), (1 / 60, S), (1 / 3, 20 * S), (7.25, 435 * S), (37.5, 2250 * S), (59.99, 3599400000),
             (0.001, 60000), (1e-6, 60), (100000, 6000000 * S), (1.0, 60 * S), (1e-7, 6), (0.0166, 996000), (12345.678, 740740680000)]
    starts = [D.W(2016, 12, 31, 23, 59, 59, 999999), D.W(2013, 9, 5, 16, 44, 0, 0, -14400), D.W(1, 1, 3), D.W(2000, 2, 28, 18, 30, 0, 1, 20700), D.W(1969, 12, 31, 0, 0, 0, 0, 1), D.W(9990, 1, 1, 6), D.W(1582, 10, 4, 12, 0, 0, 0, 3600), D.W(1899, 12, 31, 23, 0, 0, 0, 50400), D.W(2037, 6, 30, 23, 59, 59), D.W(2100, 2, 28, 12, 0, 0, 5)]
    cs = []
    for step, us in steps:
        for mult in (0, -1, 1, 2, 3, 7, 50 if us < 10 ** 10 else 5, -3):
            for delta in (0, -1, 1, us // 2, us - 1):
                span = mult * us + delta
                for k, w in enumerate(starts):
                    if abs(span) > 86400 * S * 300 or (w[0] == 1 and span < 0):
                        continue
                    cs.append([w, w[7] if (mult + k) % 2 else D.OFFSETS[(k + mult) % len(D.OFFSETS)] if w[0] != 1 else 0, span, step, us])
    # spans of years and centuries
    for days in (364, 365, 366, 367, 730, 1000, 1461, 36525, 146097, 999 * 365):
        for step, us in ((1440, 86400 * S), (100000, 6000000 * S), (525600, 31536000 * S), (719999.5, 43199970 * S), (1e7, 6 * 10 ** 14)):
            for delta in (0, -1, 86399 * S):
                if days * 86400 * S // us <= 1500:
                    cs += [[w, w[7], days * 86400 * S + delta, step, us] for w in starts if w[0] + days / 365 < 9990]
    lats, lons = D.stride(D.LATS, 15), D.stride(D.LONS, 9)
    atm = [{}, {"elevation": 3000.0}, {"temperature": 233.15}, {"pressure": 0.0}, {"elevation": 100, "temperature": 310.0}, {"elevation": 8848.0, "temperature": 220.0, "pressure": 31000.0}, {"temperature": 300.0, "pressure": 110000.0},
           {"elevation": -430.0, "pressure": 105000.0}]
    hz = ["mixed", "flat", "closed", "index", "index+", "array", "float", "longer", "much longer", "threshold-1", "threshold0", "threshold1"]
    rc, k = [], 0
    for la in lats:
        for lo in lons:
            for h in hz:
                for b in api.BACKENDS:
                    for _ in range(4 if th else 1):
                        k += 1
                        w = D.W(1950 + k * 7 % 100, 1 + k % 12, 1 + k % 28, k * 5 % 24, k * 11 % 60, k % 60, (k * 77777) % 1000000, D.OFFSETS[k % len(D.OFFSETS)])
                        rc.append([la, lo, w, 2 + k % 6, [17, 240, 61.5, 0.25, 1440, 180, 333.3][k % 7], atm[k % len(atm)], ["pos", "kw", "mixed"][k % 3], h, b])
    # every special year, every half degree of latitude, wide longitudes and atmospheres
    for i in range(1600 if th else 540):
        y, m = D.ALL_YEARS[:-1][i % (len(D.ALL_YEARS) - 1)], 1 + i % 12
        w = D.W(y, m, 3 + i % 25 if i % 4 else D.mlen(y, m) if (y, m) != (9998, 12) else 5, i * 5 % 24, i * 11 % 60, i % 60, (0, 1, 999999, 500000)[i % 4], D.OFFSETS[i % len(D.OFFSETS)])
        rc.append([D.WIDE_LATS[i * 7 % len(D.WIDE_LATS)], (D.WIDE_LONS + [1080.5])[i * 5 % (len(D.WIDE_LONS) + 1)], w, 2 + i % 4, [17, 240, 61.5, 2880, 0.25, 1440, 180, 333.3, 0.0005][i % 9],
                   [{}, {"elevation": D.WIDE_ELEVS[i % len(D.WIDE_ELEVS)]}, {"temperature": D.WIDE_TEMPS[i % len(D.WIDE_TEMPS)]}, {"pressure": D.WIDE_PRESS[i % len(D.WIDE_PRESS)]}][i % 4], ["pos", "kw", "mixed"][i % 3], hz[i % len(hz)], api.BACKENDS[i // 2 % 2]])
    for i, w in enumerate(corners.instants()):
        if 2 <= w[0] < 9990:
            la, lo = corners.PLACES[i * 5 % len(corners.PLACES)]
            t, p = corners.ATMOS[i % len(corners.ATMOS)]
            rc.append([la, lo, w, 2 + i % 4, [10, 61.5, 0.25, 180, 1440, 0.0005][i % 6], [{}, {"elevation": corners.ELEVS[i % len(corners.ELEVS)]}, {"temperature": t, "pressure": p}, {"temperature": t, "pressure": p, "elevation": corners.ELEVS[i // 2 % len(corners.ELEVS)]}][i // 3 % 4],
                       ["pos", "kw", "mixed"][i % 3], hz[i * 3 % len(hz)], api.BACKENDS[i // 2 % 2]])
    # offset changes: (UTC instant, zone)
    turns = [((2016, 3, 27, 1), "berlin"), ((2016, 10, 30, 1), "berlin"), ((2037, 10, 25, 1), "berlin"), ((2016, 3, 27, 3), "santiago"), ((2015, 9, 27, 4), "santiago"), ((2016, 9, 25, 15), "lordhowe"), ((2016, 3, 27, 15), "lordhowe"),
             ((2011, 12, 30, 10), "apia"), ((1911, 3, 10, 23), "lmt"), ((1972, 1, 7), "monrovia"), ((2016, 5, 5), "kathmandu")]
    zc, zr = [], []
    for t, z in turns:
        at = datetime.datetime(*t)
        for back in (0, 1, 59, 1800 * S, 3600 * S, 3600 * S + 1, 7200 * S, 5 * 3600 * S, 30 * 3600 * S):
            w = D.from_dt(at - back * US)
            for step, us in ((10, 600 * S), (60, 3600 * S), (30, 1800 * S), (37.5, 2250 * S), (1440, 86400 * S)) + (((1, 60 * S), (7.25, 435 * S)) if th else ()):
                for k, span in enumerate((0, us, us - 1, 2 * us + 1, 7 * us, back, back + 1, 3600 * S, 9 * 3600 * S, 50 * 3600 * S, -us, -5 * 3600 * S)):
                    if abs(span) // us > 400:
                        continue
                    for zb in (z, 0, "berlin", -18000):
                        zc.append([w, z, zb, span, step, us, k % 3 == 1])
        for i, back in enumerate((90, 30, 0)):
            for step in (10, 30, 60):
                zr.append([D.LATS[(7 * i + 3 * step) % len(D.LATS)], D.LONS[(i + step) % len(D.LONS)], D.from_dt(at - datetime.timedelta(minutes=back)), z, 8, step])
    for w in starts[1:]:
        for zb in ("berlin", "lordhowe", "apia"):
            if w[0] < 9990:
                zc.append([w, 0, zb, 3 * 600 * S + 5, 10, 600 * S, False])
                zc.append([w, -18000, zb, 3 * 600 * S + 5, 10, 600 * S, True])
    # a whole turn of the azimuth past north, so that entry 0 is met from both sides
    north = [[la, 0.0, D.W(2020, 6, 21, h), 30, 2.0, {}, "pos", z, "math"] for la in (80.0, -80.0, 70.0, -20.0, 89.0, 0.0) for h in (23, 11, 12, 0) for z in ("index", "index+", "array", "longer", "much longer", "longer array")]
    inter = [[[a, b], o] for a, b in ((0, 1), (1, 2), (0, 0)) for o in orders([4, 4])] + [[[0, 1, 2], o] for o in orders([3, 3, 3] if th else [2, 2, 3])] + [[[2, 0, 2], o] for o in orders([2, 2, 2])]
    if th:
        inter += [[[a, b], o] for a, b in ((0, 1), (2, 1)) for o in orders([5, 5])]
        inter += [[[0, 1, 2, 0], o] for o in orders([2, 2, 2, 1])]
    lo = [[[2010, 1, 1, 0, 0, 0, 0], 0, 525600, 60 * S], [[1999, 12, 31, 23, 59, 59, 999999], 20700, 131101, S], [[2016, 1, 1, 0, 0, 0, 0], "berlin", 105408, 300 * S], [[1950, 1, 1, 12, 0, 0, 0], -18000, 876600, 3600 * S], [[100, 1, 1, 12, 0, 0, 0], 0, 360000, 86400 * S]]
    if th:
        lo += [[[2010, 1, 1, 0, 0, 0, 0], 0, 31536000 // 4, S], [[2016, 1, 1, 0, 0, 0, 0], "lordhowe", 527040, 60 * S], [[2000, 1, 1, 0, 0, 0, 0], 3600, 5000000, 1000]]
    return [Space("long", lo, long, chunk=1), Space("zones", zc, zoned, chunk=300), Space("rows in zones", zr, zoned_rows, chunk=10), Space("stepping", cs, stepping, chunk=200), Space("interleavings", inter, interleave, chunk=60), Space("past north", north, rows, chunk=6), Space("rows", rc, rows, chunk=60)]
