"""Sunrise, sunset and transit executed for every state (local date, place, zone, backend) of the enumerated space and put back into the published
position algorithm: height of the sun, its direction and its movement at the returned instants."""
import datetime

import numpy as np

from .. import corners, domains as D, zones
from ..core import Space, Outcome
from ..ref import spa, timeref as T
from .. import api

PROP = "C20"
MIN5 = datetime.timedelta(minutes=5)
HALF = datetime.timedelta(hours=12)
H0, TOL_TRANSIT = -0.833, 0.16
# the published approximation takes the declination from the day of the year: it is off by the drift of the leap year cycle, in proportion to the declination's daily change
# the day of the year is that of the local date: zones far from the place's own (transit more than 13 hours from noon UTC of that date) add up to a day of the sun's motion
def tolerance(lat, daily, away):
    return 0.2 + abs(np.sin(np.radians(lat))) * (0.15 + (2.6 if away else 1.6) * daily)
SHORT = 1.5      # hours: with a shorter day (or night) the sun hardly moves up or down when it crosses the horizon


def when(c):
    return datetime.datetime(*c[0], tzinfo=zones.ZONES[c[1]] if isinstance(c[1], str) else datetime.timezone(datetime.timedelta(seconds=c[1])))


def check(cases):
    """[local date and time, zone, lat, lon, backend]"""
    out = Outcome(extra=dict(times_returned=0, max_alt_dev=0.0, max_transit_dev=0.0))
    got = []
    for c in cases:
        api.backend(c[4])
        with np.errstate(all="ignore"):
            r = api.outcome(api.util.get_sunrise_sunset_transit, c[2], c[3], when(c))
        out.call()
        if r[0] != "ok":
            if r[1] == "ValueError":
                out.ok()          # no times returned (C21 says when that is right)
            else:
                out.fail(c, "raised %r" % (r[1:],))
            continue
        if not (isinstance(r[1], (tuple, list)) and len(r[1]) == 3 and all(isinstance(t, datetime.datetime) and t.tzinfo is not None for t in r[1])):
            out.fail(c, "returned %r" % (r[1],))
            continue
        got.append((c, r[1]))
    if not got:
        return out
    # reference positions of all returned instants at once
    ts, la, lo = [], [], []
    for c, (sr, ss, tr) in got:
        for t in (sr, ss, tr, sr - MIN5, sr + MIN5, ss - MIN5, ss + MIN5, tr - HALF, tr + HALF):
            ts.append(t)
            la.append(float(c[2]))
            lo.append(float(c[3]))
    jd, jde = np.array([T.jd(t) for t in ts]), np.array([T.jde(t) for t in ts])
    tp = spa.time_part(jd, jde)
    dec, H = spa.place_part(tp, np.array(la), np.array(lo))
    el = spa.elevation_angle(np.array(la), dec, H).reshape(-1, 9)
    az = spa.azimuth_angle(H, np.array(la), dec).reshape(-1, 9)
    H = H.reshape(-1, 9)
    dec = dec.reshape(-1, 9)
    for i, (c, (sr, ss, tr)) in enumerate(got):
        out.extra["times_returned"] += 1
        dev = max(abs(el[i, 0] - H0), abs(el[i, 1] - H0))
        dtr = abs(D.angle_diff(H[i, 2], 0.0))
        hours = (ss - sr).total_seconds() / 3600 if ss.tzinfo is not sr.tzinfo else (ss.astimezone(D.UTC) - sr.astimezone(D.UTC)).total_seconds() / 3600
        out.extra["max_alt_dev"] = max(out.extra["max_alt_dev"], float(dev))
        out.extra["max_transit_dev"] = max(out.extra["max_transit_dev"], float(dtr))
        msg = None
        away = abs((tr.astimezone(D.UTC).replace(tzinfo=None) - datetime.datetime(*c[0][:3], 12)).total_seconds()) > 13 * 3600
        tol = tolerance(c[2], abs(dec[i, 8] - dec[i, 7]), away)
        if not dev <= tol:
            msg = "altitude %.3f at sunrise, %.3f at sunset, more than %.3f from -0.833" % (el[i, 0], el[i, 1], tol)
        elif not dtr <= TOL_TRANSIT + (0.13 if away else 0):
            msg = "hour angle %.3f at transit" % D.angle_diff(H[i, 2], 0.0)
        elif SHORT < hours < 24 - SHORT:
            if not (el[i, 4] > el[i, 3] and 0 < az[i, 0] < 180):
                msg = "at sunrise the sun goes from %.3f to %.3f in 10 minutes, azimuth %.2f" % (el[i, 3], el[i, 4], az[i, 0])
            elif not (el[i, 6] < el[i, 5] and 180 < az[i, 1] < 360):
                msg = "at sunset the sun goes from %.3f to %.3f in 10 minutes, azimuth %.2f" % (el[i, 5], el[i, 6], az[i, 1])
        if msg:
            out.fail(c, msg + " (%s, %s, %s)" % (sr, ss, tr))
        else:
            out.ok()
    return out


LATS = [x for x in D.LATS if abs(x) <= 89.0]
LONS = [x for x in D.LONS if abs(x) <= 180]


def spaces(tier):
    th = tier == "thorough"
    k = 0
    near, far, dst = [], [], []
    years = [1950, 1951, 1972, 1999, 2000, 2015, 2016, 2024, 2049, 2050] if th else [1950, 2015, 2016, 2050]
    for y in years:
        for m, d in D.days(y):
            for la in (LATS if th else D.stride(LATS, 9)):
                k += 1
                if not th and k % 2:
                    la = LATS[k * 7 % len(LATS)]
                lo = LONS[k * 5 % len(LONS)]
                off = round(lo / 15) * 3600
                near.append([[y, m, d, (k * 7) % 24, (k * 13) % 60, 0], off, la, lo, api.BACKENDS[k % 2]])
    wide = [x for x in D.WIDE_LATS if abs(x) <= 89]
    for y in range(1950, 2051):
        for j in range(72 if th else 24):
            k += 1
            m = 1 + (j + k) % 12
            d = D.mlen(y, m) if k % 9 == 0 else 1 + k * 5 % 28
            lo = (D.LONS + [x + 0.5 for x in range(-180, 180, 7)])[k * 11 % (len(D.LONS) + 52)]
            near.append([[y, m, d, k * 7 % 24, k * 13 % 60, k % 60], round(lo / 15) * 3600, wide[k * 17 % len(wide)], lo, api.BACKENDS[k % 2]])
    for m, d in D.days(2020)[:: 1 if th else 9]:
        for la in D.stride(LATS, 25 if th else 9):
            for lo in D.stride(LONS, 13 if th else 5):
                for off in ((0, 43200, -43200, 50400, 20700, 1172, -34200) if th else (0, 50400, -43200)):
                    k += 1
                    far.append([[2020, m, d, k % 24, 7, 3], off, la, lo, api.BACKENDS[k % 2]])
    for name, la, lo in (("berlin", 52.5, 13.4), ("santiago", -33.4, -70.7), ("lordhowe", -31.5, 159.1), ("apia", -13.8, -171.8), ("kathmandu", 27.7, 85.3), ("monrovia", 6.3, -10.8)):
        for y in ((2011, 2020, 2021, 2040) if th else (2011, 2021)):
            for m, d in D.days(y):
                k += 1
                dst.append([[y, m, d, (k * 5) % 24, 30, 0], name, la, lo, api.BACKENDS[k % 2]])
    grid = [[[y, m, d, 12, 0, 0], round(lo / 15) * 3600, la, lo, "math"] for y, m, d in ((2016, 6, 21), (2017, 12, 21), (2018, 3, 20), (2019, 9, 23), (1961, 2, 3), (2048, 11, 5))
            for la in LATS for lo in (LONS if th else D.stride(LONS, 9))]
    odd = []
    zs = list(zones.ZONES) + [1, -1, 50400, -43200, 45896, -35999]
    for y in ((1950, 1972, 2012, 2013, 2037, 2050) if th else (1972, 2012, 2037)):
        for j, (m, d) in enumerate(D.days(y)):
            for i, (la, lo) in enumerate(corners.PLACES):
                z = zs[(i + j * 5) % len(zs)]
                if abs(la) <= 89 and (y, m, d, z) != (2011, 12, 30, "apia") and (th or (i + j) % 5 == 0):
                    odd.append([[y, m, d, (i + j) % 24, (i * 7 + j) % 60, j % 60, (0, 1, 999999)[j % 3]], z, la, lo, api.BACKENDS[(i + j) // 2 % 2]])
    return [Space("odd places and zones", odd, check, chunk=300), Space("places", grid, check, chunk=300), Space("every day", near, check, chunk=300), Space("dst zones", dst, check, chunk=300), Space("far zones", far, check, chunk=300)]
