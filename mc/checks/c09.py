"""Symmetry enumeration: every state (instant, place, elevation, backend) is paired with the same state reached by whole-turn
longitude transitions (-2 .. +2 turns) and, at the poles, by longitude turns of every size of the alphabet; positions and
irradiances must agree on both ends of every such transition."""
import datetime
import math

import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from ..ref import spa, timeref as T
from .. import api
from . import poscases

PROP = "C09"
QUIRKS = ("eqeq_degrees", "parallax_inverted", "dec_parallax_axial")


def sky(when, lat, lon, el, t, p):
    s, u = api.solar, api.util
    r = {}
    r["get_position"] = api.outcome(s.get_position, lat, lon, when, el, t, p)
    r["get_altitude"] = api.outcome(s.get_altitude, lat, lon, when, el, t, p)
    r["get_azimuth"] = api.outcome(s.get_azimuth, lat, lon, when, el)
    r["get_altitude_fast"] = api.outcome(s.get_altitude_fast, lat, lon, when)
    r["get_azimuth_fast"] = api.outcome(s.get_azimuth_fast, lat, lon, when)
    r["extraterrestrial_irrad"] = api.outcome(u.extraterrestrial_irrad, lat, lon, when)
    r["diffuse_underclear"] = api.outcome(u.diffuse_underclear, lat, lon, when, el, t, p)
    r["diffuse_underovercast"] = api.outcome(u.diffuse_underovercast, lat, lon, when, el, t, p)
    r["solarelevation_function_clear"] = api.outcome(u.solarelevation_function_clear, lat, lon, when, t, p, el)
    r["solarelevation_function_overcast"] = api.outcome(u.solarelevation_function_overcast, lat, lon, when, el, t, p)
    r["direct_underclear"] = api.outcome(u.direct_underclear, lat, lon, when, 365, 2.0, 0.05, el, t, p)
    r["global_irradiance_clear"] = api.outcome(u.global_irradiance_clear, lat, lon, when, 365, 2.0, 0.05, el, t, p)
    r["global_irradiance_overcast"] = api.outcome(u.global_irradiance_overcast, lat, lon, when, el, t, p)
    return r


def agree(name, a, b, alt):
    """within rounding; azimuths near the zenith and asin/acos near +-1 lose digits"""
    if a[0] != b[0]:
        return False
    if a[0] == "raise":
        return a[1] == b[1]
    zen = max(1e-12, math.cos(math.radians(alt)))
    for x, y in zip(api.values(a[1]), api.values(b[1])):
        x, y = float(x), float(y)
        tol = 1e-8 + 1e-9 * abs(x)
        d = abs(x - y)
        if "zimuth" in name or "position" in name:
            d = min(d, abs(D.angle_diff(x, y)))
            tol += 1e-10 / zen ** 2
        if name.endswith("fast") and min(abs(x - 90), abs(x + 90), abs(x - 270)) < 0.2 or abs(alt) > 89.8:
            tol += 5e-6
        if not d <= tol:
            return False
    return True


def turns(cases):
    out = Outcome()
    for c in cases:
        w, lat, lon, el, t, p, b = c
        when = D.dt(w)
        api.backend(b)
        ref = sky(when, lat, lon, el, t, p)
        out.call(13)
        alt = ref["get_altitude"][1] if ref["get_altitude"][0] == "ok" else 0.0
        altf = ref["get_altitude_fast"][1] if ref["get_altitude_fast"][0] == "ok" else 0.0
        # a state within rounding of a documented jump (upper limb at the horizon, sun on the textbook horizon)
        if abs(alt + 0.83337) < 1e-6 or abs(alt) < 1e-6 or abs(altf) < 1e-6:
            continue
        for k in (-2, -1, 1, 2):
            r = sky(when, lat, lon + 360 * k, el, t, p)
            out.call(13)
            for name in ref:
                if agree(name, ref[name], r[name], float(altf if name.endswith("fast") else alt)):
                    out.ok()
                else:
                    out.fail(c + [k], "%s: %r at longitude %r, %r at %r" % (name, ref[name][1:], lon, r[name][1:], lon + 360 * k))
    return out


def simulate_turns(cases):
    out = Outcome()
    for c in cases:
        w, lat, lon, b = c
        api.backend(b)
        when = D.dt(w)
        rows = []
        for k in (0, -1, 1):
            rows.append([r[1:] for r in api.simulate.simulate_span(lat, lon + 360 * k, [float(i % 50) for i in range(361)], when,
                                                                     when + datetime.timedelta(hours=12), 47)])
            out.call()
        for r in rows[1:]:
            if len(r) == len(rows[0]) and all(abs(x[0] - y[0]) < 1e-8 and abs(D.angle_diff(x[1], y[1])) < 1e-6 and
                                              abs(x[2] - y[2]) < 1e-5 and x[3] == y[3] for x, y in zip(r, rows[0])):
                out.ok()
            else:
                out.fail(c, "simulated rows differ between longitudes a whole turn apart")
    return out


def asis(when, lat, lon, el, t, p):
    az, _, alt = spa.position(T.jd(when), T.jde(when), lat, lon, el, p, t, QUIRKS)
    return float(az), float(alt)


def pole(cases):
    """[when, pole latitude, elevation, temperature, pressure, backend, longitude, turn]"""
    out = Outcome()
    s = api.solar
    for c in cases:
        w, lat, el, t, p, b, lon, x = c
        when = D.dt(w)
        api.backend(b)
        sgn = 1 if lat > 0 else -1
        rs = [api.outcome(s.get_position, lat, l, when, el, t, p) for l in (lon, lon + x)] + \
            [api.outcome(f, lat, l, when) for f in (s.get_altitude_fast, s.get_azimuth_fast) for l in (lon, lon + x)]
        out.call(6)
        if any(r[0] != "ok" for r in rs):
            out.fail(c, "raised: %r" % [r for r in rs if r[0] != "ok"][:1])
            continue
        (az0, alt0), (az1, alt1), f0, f1, z0, z1 = [r[1] for r in rs]
        dalt, daz = abs(float(alt1) - float(alt0)), abs(D.angle_diff(float(az1) - float(az0), sgn * x))
        if abs(f1 - f0) > 1e-8:
            out.fail(c, "fast altitude at the pole %r, %r after turning the longitude by %r" % (f0, f1, x))
            continue
        dz = abs(D.angle_diff(float(z1) - float(z0), sgn * x))
        if dz > 1e-8 and not (dz < 1e-5 and any(min(abs(float(z) - q) for q in (90, 270)) < 0.2 for z in (z0, z1))):
            out.fail(c, "fast azimuth at the pole %r, %r after turning the longitude by %r" % (z0, z1, x))
            continue
        if dalt <= 1e-8 and daz <= 1e-6:
            out.ok()
            continue
        m0, m1 = asis(when, lat, lon, el, t, p), asis(when, lat, lon + x, el, t, p)
        if all(abs(float(a) - m[1]) < 2e-6 and abs(D.angle_diff(float(z), m[0])) < 2e-6 for (z, a), m in (((az0, alt0), m0), ((az1, alt1), m1))):
            out.ok()
            out.fail(c, "altitude changes by %.6f degrees" % dalt, known="pole_parallax")
        else:
            out.fail(c, "pole: azimuth %r -> %r, altitude %r -> %r on turning the longitude by %r" % (az0, az1, alt0, alt1, x))
    return out


def spaces(tier):
    th = tier == "thorough"
    fam = poscases.families(th)
    cs = fam["written corners"] + fam["mixed"][:20000 if th else 900] + [[w, lat, lon, el, t, p, b] for w, el, t, p, b in
          ((D.W(2016, 12, 19, 23), 0, 288.15, 101325.0, "numpy"), (D.W(1999, 6, 10, 3, 30), 2500.0, 270.0, 80000.0, "math")) for lat in D.stride(D.LATS, 67 if th else 17)
          for lon in (D.WIDE_LONS if th else D.stride(D.WIDE_LONS, 29))]
    poles = [[D.W(y, m, d, h, 17), lat, el, 288.15, 101325.0, b, lon, x]
             for y, m, d in ((2000, 1, 1), (2015, 3, 20), (2015, 6, 21), (1985, 9, 5), (2024, 12, 30)) for h in (0, 5, 12, 19)
             for lat in (90.0, -90.0) for el in (0, 2835.0) for b in api.BACKENDS for lon in (0.0, -75.0, 180.0)
             for x in (1.0, 15.0, 90.0, -120.0, 180.0, 300.0)]
    sims = [[D.W(2016, m, 5, h), lat, lon, b] for m in (3, 6, 12) for h in (0, 12) for lat in (0.0, 48.0, -70.0) for lon in (0.0, -120.5, 179.0) for b in api.BACKENDS]
    return [Space("whole-turns", cs, turns, chunk=25), Space("poles", poles, pole, chunk=100), Space("simulations", sims, simulate_turns, chunk=8)]
