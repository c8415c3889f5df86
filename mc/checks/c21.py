"""Sunrise queries over all states (local date x time of day x fold x zone with its transitions x place x backend): all times of day of one local date
are merged to one expected answer; order, symmetry, zone, date of the transit, agreement of the five functions, and ValueError exactly where the
published declination says that the sun stays up or down."""
import datetime

import numpy as np

from .. import corners, domains as D, zones
from ..core import Space, Outcome
from ..ref import spa, timeref as T
from .. import api

PROP = "C21"
MS = 1e-3


def zone(z):
    return zones.ZONES[z] if isinstance(z, str) else datetime.timezone(datetime.timedelta(seconds=z))


def utc(t):
    return t.replace(tzinfo=None) - t.utcoffset()


def declination(y, m, d, lon):
    noon = T.day_number(y, m, d) + 1721425.0 - lon / 360.0
    tp = spa.time_part(noon, noon + 65 / 86400)
    return float(tp["dec"])


def check(cases):
    """[y, m, d, zone, lat, lon, [[h, mi, s, us, fold], ...], backend]"""
    out = Outcome(extra=dict(times_returned=0, polar=0))
    for c in cases:
        y, m, d, z, lat, lon, clocks, b = c
        tz = zone(z)
        api.backend(b)
        dec = declination(y, m, d, lon)
        high, low = 90 - abs(lat - dec), abs(lat + dec) - 90
        up = high > -0.833 + 1 and low < -0.833 - 1       # certainly rises and sets
        polar = high < -0.833 - 1 or low > -0.833 + 1      # certainly does not
        base = None
        msg = None
        for h, mi, s, us, fold in clocks:
            w = datetime.datetime(y, m, d, h, mi, s, us, tzinfo=tz, fold=fold)
            with np.errstate(all="ignore"):
                r = api.outcome(api.util.get_sunrise_sunset_transit, lat, lon, w)
                parts = [api.outcome(api.fn("util." + f), lat, lon, w) for f in ("get_sunrise_sunset", "get_sunrise_time", "get_sunset_time", "get_transit_time")]
            out.call(5)
            if r[0] == "raise":
                if r[1] != "ValueError" or up:
                    msg = "%s: raised %r (noon altitude %.2f, midnight altitude %.2f)" % (w.isoformat(), r[1:], high, low)
                elif any(p[0] == "ok" or p[1] != "ValueError" for p in parts):
                    msg = "%s: the full query raises ValueError, the others %r" % (w.isoformat(), parts)
                elif base not in (None, "raise"):
                    msg = "%s raises ValueError, another time of that day does not" % w.isoformat()
                if msg:
                    break
                base = "raise"
                out.extra["polar"] += 1
                out.ok()
                continue
            if polar:
                msg = "%s: %r although the sun stays between %.2f and %.2f degrees" % (w.isoformat(), r[1], low, high)
                break
            if base == "raise":
                msg = "%s returns times, another time of that day raises" % w.isoformat()
                break
            sr, ss, tr = r[1]
            for t in (sr, ss, tr):
                if t.tzinfo is not tz and not t.tzinfo == tz or t.utcoffset() != utc(t).replace(tzinfo=D.UTC).astimezone(tz).utcoffset():
                    msg = "%s: %r is not expressed in the zone of the argument" % (w.isoformat(), t)
            usr, uss, utr = utc(sr), utc(ss), utc(tr)
            if not msg and not (usr <= utr <= uss and abs(((utr - usr) - (uss - utr)).total_seconds()) <= MS and (uss - usr).total_seconds() <= 86400.01):
                msg = "%s: not ordered and symmetric: %s %s %s" % (w.isoformat(), sr, tr, ss)
            if not msg and any(p[0] != "ok" for p in parts):
                msg = "%s: %r" % (w.isoformat(), parts)
            if not msg:
                pair = parts[0][1]
                if len(pair) != 2 or any(abs((utc(a) - x).total_seconds()) > MS or a.utcoffset() != o.utcoffset() for a, x, o in
                                         ((pair[0], usr, sr), (pair[1], uss, ss), (parts[1][1], usr, sr), (parts[2][1], uss, ss), (parts[3][1], utr, tr))):
                    msg = "%s: full query %r, others %r" % (w.isoformat(), r[1], [p[1] for p in parts])
            if not msg and abs((w.utcoffset().total_seconds() / 3600 - lon / 15) % 24 - 12) > 1.7 and tr.date() != datetime.date(y, m, d):
                msg = "%s: transit %s on another date" % (w.isoformat(), tr)
            if not msg and base is not None and any(abs((a - x).total_seconds()) > MS for a, x in zip(base, (usr, uss, utr))):
                msg = "%s: %s; another time of that day gives %s" % (w.isoformat(), (usr, uss, utr), base)
            if msg:
                break
            base = (usr, uss, utr)
            out.extra["times_returned"] += 1
            out.ok()
        if msg:
            out.fail(c, msg)
    return out


def check_turns(cases):
    """[y, m, d, offset, lat, lon, backend]: the same place counted by whole turns of longitude"""
    out = Outcome(extra=dict(turns=0))
    for c in cases:
        y, m, d, z, lat, lon, b = c
        w = datetime.datetime(y, m, d, 9, 30, tzinfo=zone(z))
        api.backend(b)
        base = None
        for k in (0, 1, -1, 2, -3):
            with np.errstate(all="ignore"):
                r = api.outcome(api.util.get_sunrise_sunset_transit, lat, lon + 360.0 * k, w)
            out.call()
            if r[0] != "ok":
                out.fail(c, "%s lat %r lon %r: %r" % (w.isoformat(), lat, lon + 360.0 * k, r[1:]))
                break
            if base is None:
                base = r[1]
                off = (z / 3600 - lon / 15) % 24
                if abs(off - 12) > 1.7 and base[2].date() != w.date():
                    out.fail(c, "%s lat %r lon %r: transit %s on another date" % (w.isoformat(), lat, lon, base[2]))
                    break
            elif abs((z / 3600 - lon / 15) % 24 - 12) > 1.7 and any(abs((u - v).total_seconds()) > MS for u, v in zip(base, r[1])):
                out.fail(c, "%s lat %r: longitude %r gives %s, %r gives %s" % (w.isoformat(), lat, lon, base, lon + 360.0 * k, r[1]))
                break
            out.extra["turns"] += 1
            out.ok()
    return out


CL = [[0, 0, 0, 0, 0], [23, 59, 59, 999999, 0], [12, 0, 0, 0, 0], [6, 30, 0, 0, 0], [2, 30, 0, 0, 0], [2, 30, 0, 0, 1], [1, 45, 0, 0, 1], [23, 30, 0, 0, 0], [23, 30, 0, 0, 1], [18, 0, 0, 1, 0], [3, 0, 0, 0, 0]]
ZPLACE = {"berlin": (52.5, 13.4), "santiago": (-33.4, -70.7), "lordhowe": (-31.5, 159.1), "apia": (-13.8, -171.8), "kathmandu": (27.7, 85.3), "monrovia": (6.3, -10.8), "lmt": (48.9, 2.3)}


def spaces(tier):
    th = tier == "thorough"
    k = 0
    dst, fixed, polar, hours = [], [], [], []
    for z, (la, lo) in ZPLACE.items():
        for y in ((1911, 1972, 2011, 2020, 2021, 2024, 2038) if th else (1972, 2011, 2021)):
            if z == "lmt" and y != 1911 and not th:
                y = 1911
            for m, d in D.days(y):
                if z == "apia" and (y, m, d) == (2011, 12, 30):
                    continue
                k += 1
                dst.append([y, m, d, z, la, lo, CL if th else CL[:4] + CL[4 + k % 2::2], api.BACKENDS[k % 2]])
    for y in ((1950, 1972, 2000, 2015, 2016, 2050) if th else (2015, 2016)):
        for m, d in D.days(y):
            for la in (D.stride([x for x in D.LATS if abs(x) < 90], 12) if th else D.stride([x for x in D.LATS if abs(x) < 90], 5)):
                k += 1
                lo = D.LONS[k % len(D.LONS)]
                fixed.append([y, m, d, D.OFFSETS[k * 3 % len(D.OFFSETS)] if k % 2 else round(lo / 15) * 3600, la, lo, CL[:2 + k % 3], api.BACKENDS[k // 2 % 2]])
    wide = [x for x in D.WIDE_LATS if abs(x) < 66]
    for i in range(3000 if th else 900):
        y, m = D.ALL_YEARS[1:-1][i % (len(D.ALL_YEARS) - 2)], 1 + i % 12
        fixed.append([y, m, D.mlen(y, m) if i % 3 == 0 and (y, m) != (9998, 12) else 1 + i % 28, D.OFFSETS[i % len(D.OFFSETS)], wide[i * 7 % len(wide)], D.LONS[i * 5 % len(D.LONS)], CL[:2 + i % 3], api.BACKENDS[i // 2 % 2]])
    for la in [x for x in D.LATS if abs(x) >= 60 and abs(x) < 90]:
        for m in range(1, 13):
            for d in ((1, 7, 14, 21, 28) if th else (7, 21)):
                for lo in ((-150.0, 0.25, 105.1786, 180.0) if th else (0.25, -150.0)):
                    for b in api.BACKENDS:
                        polar.append([2017, m, d, round(lo / 15) * 3600, la, lo, CL[1:3], b])
    for (y, m, d), z in (((2020, 3, 29), "berlin"), ((2020, 10, 25), "berlin"), ((2021, 3, 28), "santiago"), ((2021, 9, 26), "santiago"), ((2021, 3, 28), "lordhowe"), ((2021, 3, 29), "lordhowe"), ((2021, 9, 26), "lordhowe"), ((2021, 9, 27), "lordhowe"),
                         ((2011, 12, 29), "apia"), ((2011, 12, 31), "apia"), ((1972, 1, 6), "monrovia"), ((1972, 1, 7), "monrovia"), ((1911, 3, 11), "lmt"), ((1911, 3, 10), "lmt"), ((2016, 2, 29), 3600), ((2016, 12, 31), -3600), ((2017, 1, 1), 12 * 3600)):
        la, lo = ZPLACE.get(z, (40.0, 20.0))
        for h in range(24):
            for b in api.BACKENDS:
                hours.append([y, m, d, z, la, lo, [[12, 0, 0, 0, 0]] + [[h, mi, 0, 0, f] for mi in range(0, 60, 5 if th else 20) for f in (0, 1)], b])
    turns, odd = [], []
    for z in range(-24, 29, 1 if th else 2):
        for lo in range(-180, 181, 5 if th else 10):
            for i, (y, m, d) in enumerate(((2024, 5, 5), (2024, 1, 1), (2011, 12, 31), (2024, 2, 29), (2025, 11, 3))[:5 if th else 3]):
                turns.append([y, m, d, z * 1800, (-13.8, 1.9, 52.0)[(z + lo + i) % 3], lo + 0.2 * (lo % 7), api.BACKENDS[(z + lo // 5 + i) % 2]])
    for y, m, d in [(2021, m, d) for m, d in D.days(2021)]:
        for z, la, lo in ((13 * 3600, -13.8, -171.8), (14 * 3600, 1.9, -157.4), (13 * 3600, -21.1, -175.2), (45900 + 3600, -43.9, -176.5), (-11 * 3600, 40.0, 179.9), (-36000, 52.0, 179.6)):
            turns.append([y, m, d, z, la, lo, api.BACKENDS[d % 2]])
    for i, w in enumerate(corners.instants()):
        la, lo = corners.PLACES[i * 5 % len(corners.PLACES)]
        y, m, d = w[:3]
        if abs(la) >= 90 or not 2 <= y <= 9997 or (w[7] == "apia" and (y, m, d) == (2011, 12, 30)):
            continue
        odd.append([y, m, d, w[7], la, lo, [[w[3], w[4], w[5], w[6], w[8] if len(w) > 8 else 0]] + CL[:2 + i % 4], api.BACKENDS[i // 2 % 2]])
    return [Space("written corners", odd, check, chunk=60), Space("date line and turns", turns, check_turns, chunk=200), Space("around transitions", hours, check, chunk=20), Space("polar", polar, check, chunk=100), Space("zones", dst, check, chunk=60), Space("fixed offsets", fixed, check, chunk=100)]
