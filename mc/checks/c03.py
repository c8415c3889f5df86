"""The whole published chain as a reference model (UT and TT Julian days by integer arithmetic, then mc/ref/spa.py),
executed against get_topocentric_position, get_position, get_altitude, get_azimuth and get_topocentric_zenith_angle in every state (instant, place,
elevation, temperature, pressure, backend) of the enumerated space: every value of every axis, every pair of axes,
mixed combinations, all UTC offsets."""
import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from ..ref import spa, timeref as T
from .. import api
from . import poscases

PROP = "C03"
TOL = 1e-5
ASIS_TOL = 2e-6
QUIRKS = ("eqeq_degrees", "parallax_inverted", "dec_parallax_axial")


def reference(cases, quirks):
    whens = [D.dt(c[0]) for c in cases]
    jd = np.array([T.jd(w) for w in whens])
    jde = np.array([T.jde(w) for w in whens])
    lat, lon, el, t, p = (np.array([float(c[i]) for c in cases]) for i in range(1, 6))
    tp = spa.time_part(jd, jde, quirks)
    dp, H = spa.place_part(tp, lat, lon, el, quirks)
    e0 = spa.elevation_angle(lat, dp, H)
    return dict(dec=dp, H=H, az=spa.azimuth_angle(H, lat, dp), e0=e0, alt=e0 + spa.refraction(p, t, e0))


def edge(e0):
    """the sun's upper limb exactly at the horizon: the published correction jumps there"""
    return abs(e0 + 0.83337) < 3e-5


def check(cases):
    out = Outcome(extra=dict(max_dev_published=0.0))
    with np.errstate(all="ignore"):
        pub, asis = reference(cases, ()), reference(cases, QUIRKS)
    s = api.solar
    for i, c in enumerate(cases):
        w, lat, lon, el, t, p, b = c
        when = D.dt(w)
        api.backend(b)
        rs = [api.outcome(s.get_topocentric_position, lat, lon, when, el),
              api.outcome(s.get_position, lat, lon, when, el, t, p),
              api.outcome(s.get_altitude, lat, lon, when, el, t, p),
              api.outcome(s.get_azimuth, lat, lon, when, el)]
        out.call(5)
        bad = [r for r in rs if r[0] != "ok"]
        if bad:
            out.fail(c, "raised %s: %s" % bad[0][1:])
            continue
        (dec, H), (az, alt), alt2, az2 = [r[1] for r in rs]
        z = api.outcome(s.get_topocentric_zenith_angle, lat, dec, H, p, t)
        if z[0] != "ok":
            out.fail(c, "the zenith angle raised %s: %s" % z[1:])
            continue
        verdicts = []
        for tol, m in ((TOL, pub), (ASIS_TOL, asis)):
            zen = abs(90 - abs(m["e0"][i]))
            devs = [abs(dec - m["dec"][i]), abs(D.angle_diff(H, m["H"][i]))]
            horizon = edge(m["e0"][i])
            for a in (alt, alt2, 90 - z[1]):
                devs.append(0.0 if horizon and abs(a - m["e0"][i]) < 1.0 else abs(a - m["alt"][i]))
            for a in (az, az2):
                # the azimuth is only as defined as the distance from the zenith
                devs.append(abs(D.angle_diff(a, m["az"][i])) * np.sin(np.radians(zen)))
            verdicts.append((all(x <= tol for x in devs), max(devs)))
        out.extra["max_dev_published"] = max(out.extra["max_dev_published"], float(verdicts[0][1]))
        if verdicts[0][0]:
            out.ok()
        elif verdicts[1][0]:
            out.fail(c, "up to %.6f degrees from the published chain" % verdicts[0][1], known="chain_quirks")
            out.ok()
        else:
            out.fail(c, "dec %.7f H %.7f az %.7f/%.7f alt %.7f/%.7f; published dec %.7f H %.7f az %.7f alt %.7f" %
                     (dec, H, az, az2, alt, alt2, pub["dec"][i], pub["H"][i], pub["az"][i], pub["alt"][i]))
    return out


def spaces(tier):
    th = tier == "thorough"
    return [Space(k, v, check, chunk=250) for k, v in poscases.families(th).items()]
