"""Call-shape enumeration: every split of the six parameters into positional, keyword and omitted ones, for every value set
of a finite alphabet and both backends, executed on get_position, get_altitude and get_azimuth; all three must agree with
one explicit all-positional reference call.  Plus value agreement over the full position case families and for arrays."""
import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from .. import api
from . import poscases

PROP = "C04"
F = {"position": "solar.get_position", "altitude": "solar.get_altitude", "azimuth": "solar.get_azimuth"}


def same_pos(az1, alt1, az2, alt2):
    return abs(float(alt1) - float(alt2)) <= 1e-9 + (3e-6 if abs(alt1) > 89.9 else 0) and \
        abs(D.angle_diff(float(az1), float(az2))) <= 1e-9 + 1e-11 / max(1e-9, np.cos(np.radians(float(alt1))))


def explicit(eff):
    """the two separate queries, everything passed by position"""
    s = api.solar
    e = eff
    az = s.get_azimuth(e["latitude_deg"], e["longitude_deg"], e["when"], e["elevation"])
    alt = s.get_altitude(e["latitude_deg"], e["longitude_deg"], e["when"], e["elevation"],
                         e.get("temperature", 288.15), e.get("pressure", 101325.0))
    return az, alt


def shape_check(cases):
    out = Outcome()
    for c in cases:
        which, shape, vals, b = c
        api.backend(b)
        name = F[which]
        params = api.TIMED[name]
        v = dict(zip(api.TIMED["solar.get_position"], [vals[0], vals[1], D.dt(vals[2])] + vals[3:]))
        eff = api.effective(params, shape, v)
        r = api.outcome(api.apply_shape, api.fn(name), params, shape, v)
        az, alt = explicit(eff)
        same = api.outcome(api.fn(name), *[eff.get(p, v[p]) for p in params])
        out.call(4)
        if r[0] != "ok":
            out.fail(c, "%s%r raised %s: %s" % (name, shape, r[1], r[2]))
            continue
        if same[0] != "ok" or not np.array_equal(np.array(same[1], dtype=float), np.array(r[1], dtype=float)):
            out.fail(c, "%s with shape %r gives %r; the same values all passed by position give %r" % (name, shape, r[1], same[1:]))
            continue
        got = {"position": lambda x: tuple(x), "altitude": lambda x: (az, x), "azimuth": lambda x: (x, alt)}[which](r[1])
        if len(got) == 2 and same_pos(got[0], got[1], az, alt):
            out.ok()
        else:
            out.fail(c, "%s with shape %r gives %r; separate explicit queries give azimuth %r, altitude %r" %
                     (name, shape, r[1], az, alt))
    return out


def value_check(cases):
    out = Outcome()
    s = api.solar
    for c in cases:
        w, lat, lon, el, t, p, b = c
        api.backend(b)
        when = D.dt(w)
        az, alt = s.get_position(lat, lon, when, el, t, p)
        az2, alt2 = s.get_azimuth(lat, lon, when, el), s.get_altitude(lat, lon, when, el, t, p)
        az3 = s.get_position(lat, lon, when, el, 200.0 if t > 250 else 320.0, 30000.0 if p > 60000 else 105000.0)[0]
        out.call(4)
        if same_pos(az, alt, az2, alt2) and same_pos(az3, alt, az2, alt2):
            out.ok()
        else:
            out.fail(c, "position (%r, %r), azimuth %r, altitude %r, azimuth in another atmosphere %r" % (az, alt, az2, alt2, az3))
    return out


def array_check(cases):
    out = Outcome()
    s = api.solar
    api.backend("numpy")
    for c in cases:
        w, lats, lons, el, t, p = c
        when = D.dt(w)
        la, lo = np.array(lats)[:, None], np.array(lons)
        tt = np.array(t)
        az, alt = s.get_position(la, lo, when, np.array(el), tt, np.array(p))
        az2, alt2 = s.get_azimuth(la, lo, when, np.array(el)), s.get_altitude(la, lo, when, np.array(el), tt, np.array(p))
        out.call(3)
        with np.errstate(all="ignore"):
            good = np.all(np.abs(alt - alt2) < 1e-6) and \
                np.all(np.abs((az - az2 + 180) % 360 - 180) * np.cos(np.radians(alt2)) < 1e-9)
        if good and az.shape == az2.shape == (len(lats), len(lons)):
            out.ok()
        else:
            out.fail(c, "array position and separate array queries differ")
    return out


def spaces(tier):
    th = tier == "thorough"
    vals = [[39.742476, -105.1786, D.W(2003, 10, 17, 12, 30, 30, 0, -25200), 1830.14, 284.15, 82000.0],
            [-33.9, 151.2, D.W(1987, 6, 20, 20, 50, 7, 0), 4000.0, 250.0, 60000.0],
            [69.65, 18.96, D.W(2031, 3, 20, 17, 20), 9000.0, 330.0, 108000.0],
            [0.0, 0.0, D.W(2000, 1, 1, 6, 1), 500.5, 300.0, 50000.0],
            [50.0, 200.0, D.W(1960, 8, 31, 23, 59, 59, 999999, 20700), -400.0, 273.15, 0.0],
            [20, -80, D.W(2010, 5, 17, 15), 1000, 280, 100000], [0, 0, D.W(2011, 4, 3, 17, 40), 0, 260, 0], [-0.0, 15, D.W(2012, 9, 22, 4, 58, 30), -0.0, 295.5, -0.0]]
    opt = set(api.DEFAULTS)
    shp = [[k, list(sh), v, b] for k, f in F.items() for sh in api.shapes(api.TIMED[f], opt) for v in vals for b in api.BACKENDS]
    fam = poscases.families(th)
    v = fam["half degrees"] + fam["written corners"] + fam["axes"] + fam["mixed"] + fam["pairs"]
    arr = [[w, lats, lons, el, t, p] for w in [x[2] for x in vals] for lats in ([-80.0, 10.0, 45.5], [0.0]) for lons in ([-170.0, 20.0], [5.0, 6.0, 7.0])
           for el in (0, 3000.0) for t, p in ((288.15, 101325.0), (230.0, 40000.0))]
    return [Space("call-shapes", shp, shape_check, chunk=100), Space("arrays", arr, array_check, chunk=20),
            Space("values", v if th else fam["half degrees"] + fam["written corners"] + v[len(fam["half degrees"]) + len(fam["written corners"])::2], value_check, chunk=250)]
