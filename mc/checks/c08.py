"""Range and totality invariant, evaluated in every state of an enumerated space: all latitudes (poles included), longitudes
-360 to 720, instants from year 1 to 9999, elevations and atmospheres, both backends; plus constructed states with the sun
within rounding error of the zenith, the nadir and the pole of the fast formulas (366 days x times x longitudes)."""
import math

import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from ..ref import spa, timeref as T
from .. import api
from . import poscases

PROP = "C08"


def judge(out, c, name, r, kind):
    if r[0] != "ok":
        out.fail(c, "%s raised %s: %s" % (name, r[1], r[2]))
        return
    v = r[1]
    pair = v if kind == "pos" else ((v, None) if kind == "az" else (None, v))
    try:
        ok = True
        if pair[0] is not None:
            ok = ok and math.isfinite(float(pair[0])) and 0 <= float(pair[0]) <= 360
        if pair[1] is not None:
            ok = ok and math.isfinite(float(pair[1])) and -90 <= float(pair[1]) <= 91
    except (TypeError, ValueError):
        ok = False
    if ok:
        out.ok()
    else:
        out.fail(c, "%s = %r" % (name, v))


def precise(cases):
    out = Outcome()
    s = api.solar
    for c in cases:
        w, lat, lon, el, t, p, b = c
        when = D.dt(w)
        api.backend(b)
        judge(out, c, "get_position", api.outcome(s.get_position, lat, lon, when, el, t, p), "pos")
        judge(out, c, "get_altitude", api.outcome(s.get_altitude, lat, lon, when, el, t, p), "alt")
        judge(out, c, "get_azimuth", api.outcome(s.get_azimuth, lat, lon, when, el), "az")
        judge(out, c, "get_altitude_fast", api.outcome(s.get_altitude_fast, lat, lon, when), "alt")
        judge(out, c, "get_azimuth_fast", api.outcome(s.get_azimuth_fast, lat, lon, when), "az")
        out.call(5)
    return out


def fast(cases):
    out = Outcome()
    s = api.solar
    for c in cases:
        w, lat, lon, b = c
        when = D.dt(w)
        api.backend(b)
        judge(out, c, "get_altitude_fast", api.outcome(s.get_altitude_fast, lat, lon, when), "alt")
        judge(out, c, "get_azimuth_fast", api.outcome(s.get_azimuth_fast, lat, lon, when), "az")
        out.call(2)
    return out


def zenith_states(th):
    """precise: place the observer under (or opposite) the sun, by the reference model of the pinned arithmetic"""
    quirks = ("eqeq_degrees", "parallax_inverted", "dec_parallax_axial")
    res = []
    times = [D.W(y, m, d, h, 4 * m, 3 * d % 60) for y in (1900, 1999, 2016, 2024) for m in range(1, 13) for d in (1, 15, 28)
             for h in ((0, 4, 9, 13, 18, 23) if th else (3, 12, 20))]
    for i, w in enumerate(times):
        b = api.BACKENDS[i % 2]
        when = D.dt(w)
        tp = spa.time_part(T.jd(when), T.jde(when), quirks)
        lat, lon = 0.0, 0.0
        for _ in range(8):
            dec, H = (float(x) for x in spa.place_part(tp, lat, lon, 0.0, quirks))
            lat, lon = dec, lon - (H - 360 if H > 180 else H)
        for dl in (0.0, 1e-9, -1e-9, 1e-7):
            for sl, so in ((lat + dl, lon), (-lat + dl, lon + 180 if lon < 0 else lon - 180)):
                res.append([w, sl, so, 0, 288.15, 101325.0, b])
    return res


def fast_states(th):
    """fast: latitude exactly the fast declination of the day and hour angle exactly 0 or 180, or a pole"""
    res = []
    for y in (2023, 2024):
        for m, d in D.days(y):
            n = T.day_of_year(D.datetime.datetime(y, m, d))
            dec = 23.45 * math.sin(2 * math.pi / 365 * (n - 81))
            b81 = 2 * math.pi / 364 * (n - 81)
            eot = 9.87 * math.sin(2 * b81) - 7.53 * math.cos(b81) - 1.5 * math.sin(b81)
            for h in ((0, 6, 12, 18) if not th else range(0, 24)):
                noon = (720 - h * 60 - eot) / 4
                for lat, lon in ((dec, noon), (-dec, noon + 180), (dec, noon - 180), (90.0, noon), (-90.0, noon), (90.0, noon + 90)):
                    for b in api.BACKENDS:
                        res.append([D.W(y, m, d, h), lat, lon, b])
    return res


def azimuth_edges(th):
    """fast azimuth where its sine is near +-1 (sun due east or west): latitudes x minutes"""
    res = []
    for m, d in ((3, 21), (6, 21), (9, 1), (12, 21)):
        for lat in D.stride(D.LATS, 67 if th else 23):
            for mi in range(0, 1440, 5 if th else 20):
                res.append([D.W(2021, m, d, mi // 60, mi % 60), lat, 0.0, api.BACKENDS[(mi // 20) % 2]])
    return res


def spaces(tier):
    th = tier == "thorough"
    fam = poscases.families(th)
    years = [[D.W(y, m, d, *c), la, lo, 0, 288.15, 101325.0, api.BACKENDS[(y + m) % 2]]
             for y in [*(range(1, 9999, 7) if th else range(1, 9999, 97)), 2, 4, 9998, 9999] for m, d, c in ((1, 1 if y > 1 else 2, (0, 0, 0, 0)), (7, 1, (12, 0, 0, 0)), (12, 31, (23, 59, 59, 999999)))
             for la, lo in ((0.0, 0.0), (90.0, 720.0), (-66.5, -360.0))]
    poles = [[D.W(2010, m, 21, h), la, lo, 0, 288.15, 101325.0, b] for m in range(1, 13) for h in range(0, 24, 3)
             for la in (90.0, -90.0, 90, -90, 89.99999999999999, -89.99999999999999) for lo in (0, 45.5, -180.0, 360, 720.0) for b in api.BACKENDS]
    return [Space("written corners", fam["written corners"], precise, chunk=50), Space("zenith-nadir", zenith_states(th), precise, chunk=100), Space("fast-zenith-nadir", fast_states(th), fast, chunk=400),
            Space("fast-east-west", azimuth_edges(th), fast, chunk=400), Space("poles", poles[::1 if th else 2], precise, chunk=100),
            Space("years-1-9998", years, precise, chunk=50), Space("axes", fam["axes"][::1 if th else 2], precise, chunk=200),
            Space("mixed", fam["mixed"][::1 if th else 2], precise, chunk=200)]
