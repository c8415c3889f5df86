"""The incidence angle on the complete product of zenith angles x slopes x orientations x azimuths of a grid (poles, squares, opposites and nearly equal directions
included) on both backends against the angle between two vectors, with the laws that bind several calls: horizontal surface, facing surface, common turns."""
import math

import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from .. import api

PROP = "C27"


def vec(zenith, azimuth):
    z, a = math.radians(zenith), math.radians(azimuth)
    return np.array([math.sin(z) * math.sin(a), math.sin(z) * math.cos(a), math.cos(z)])


def angle(zenith, slope, orientation, azimuth):
    u, v = vec(zenith, azimuth), vec(slope, 180 + orientation)
    return math.degrees(math.atan2(float(np.linalg.norm(np.cross(u, v))), float(u @ v)))


def tolerance(ref):
    # the arc cosine loses digits near 0 and 180
    return 1e-9 + min(5e-6, 1e-11 / max(math.sin(math.radians(ref)), 1e-9))


def grid(cases):
    """[zenith, slope, orientation, backend, form]: all azimuths"""
    out = Outcome()
    f = api.solar.get_incidence_angle
    for c in cases:
        z, sl, so, b, form = c
        api.backend(b)
        refs = [angle(z, sl, so, a) for a in AZ]
        if form == "array":
            r = api.outcome(f, z, sl, so, np.array(AZ, dtype=float))
            out.call()
            got = [float(x) for x in r[1]] if r[0] == "ok" and np.shape(r[1]) == (len(AZ),) else None
        else:
            got = []
            for a in AZ:
                r = api.outcome(f, z, sl, so, a) if form == "pos" else api.outcome(f, topocentric_zenith_angle=z, slope=sl, slope_orientation=so, topocentric_azimuth_angle=a)
                out.call()
                if r[0] != "ok":
                    got = None
                    break
                got.append(float(r[1]))
        if got is None:
            out.fail(c, "raised or has the wrong shape: %r" % (r[1:],))
            continue
        bad = next(((a, g, x) for a, g, x in zip(AZ, got, refs) if not (abs(g - x) <= tolerance(x) and 0 <= g <= 180)), None)
        if bad:
            out.fail(c, "azimuth %r: incidence %r, angle between the vectors %r" % bad)
        else:
            out.ok(len(AZ))
    return out


def laws(cases):
    """[zenith, slope, orientation, azimuth, backend]"""
    out = Outcome()
    f = lambda *a: float(api.solar.get_incidence_angle(*a))
    for c in cases:
        z, sl, so, a, b = c
        api.backend(b)

        def run():
            base = f(z, sl, so, a)
            res = []
            for t in TURNS:
                x = f(z, sl, so + t, a + t)
                if not abs(x - base) <= tolerance(base) + 1e-8:
                    res.append("turned by %r: %r, %r" % (t, x, base))
            for t in (360, -360, 720):
                for x in (f(z, sl, so + t, a), f(z, sl, so, a + t)):
                    if not abs(x - base) <= tolerance(base) + 1e-8:
                        res.append("whole turn: %r, %r" % (x, base))
            if not abs(f(z, 0, so, a) - z) <= tolerance(z):
                res.append("horizontal surface: %r" % f(z, 0, so, a))
            # tilted the other way
            x, y = f(z, -sl, so, a), f(z, sl, so + 180, a)
            if not abs(x - y) <= tolerance(y) + 1e-8:
                res.append("tilted by %r: %r, by %r the other way: %r" % (-sl, x, sl, y))
            # squarely: normal azimuth equals sun azimuth
            x = f(z, z, a - 180, a)
            if not 0 <= x <= 5e-6:
                res.append("facing the sun: %r" % x)
            # from below: mirrored slope
            x = f(z, 180 - sl, so + 180, a)
            if not abs(x - (180 - base)) <= tolerance(base) + 1e-8:
                res.append("opposite surface: %r, %r" % (x, base))
            return res
        r = api.outcome(run)
        out.call(len(TURNS) + 10)
        if r[0] != "ok" or r[1]:
            out.fail(c, "%r" % (r[1:],))
        else:
            out.ok()
    return out


AZ = sorted(set([float(x) for x in range(0, 361, 15)] + [-1e-6, -37.5, -90.0, -180.0, -300.0, 395.0, 1e-9, 0.1, 44.999999, 89.9999999, 90.0000001, 135.5, 179.9999999, 180.0000001, 269.99, 359.9, 359.9999999] + [0, 90, 180, 270, 360]))
TURNS = [1e-6, 17.3, 90.0, 180.0, -45.0, 301.7]


def spaces(tier):
    th = tier == "thorough"
    step = 5 if th else 15
    Z = sorted(set([float(x) for x in range(0, 181, step)] + [1e-9, 1e-6, 0.01, 89.999, 90.001, 179.999, 179.9999999, 49.894319] + [30, 90]), key=lambda x: (x, str(x)))
    SL = sorted(set([float(x) for x in range(0, 181, step)] + [1e-9, 0.01, 23.45, 89.999, 179.9999, -1e-6, -12.5, -30.0, -90.0, -135.0, -180.0, 200.0, 330.0, 360.0] + [0, 45, 90, -45]), key=lambda x: (x, str(x)))
    SO = [float(x) for x in range(-180, 361, 3 * step)] + [0, -10.0, 10.0, 1e-9, 89.9999, -90, 179.99]
    forms = [("math", "pos"), ("numpy", "array"), ("numpy", "pos"), ("math", "kw")]
    cs, k = [], 0
    for z in Z:
        for sl in SL:
            for so in SO:
                for b, f in (forms[:2] if th else [forms[k % 4]]):
                    cs.append([z, sl, so, b, f])
                k += 1
    lw = [[z, sl, so, a, b] for z in D.stride(Z, 9) for sl in D.stride(SL, 9) for so in D.stride(SO, 7) for a in D.stride(AZ, 9) for b in (api.BACKENDS if th else api.BACKENDS[:1])]
    return [Space("laws", lw, laws, chunk=200), Space("grid", cs, grid, chunk=60)]
