"""Dense enumeration of the elevation angle from -90 to 90 degrees (finer around the limb limit and the singularity at -5.11)
x pressures x temperatures x backends x scalar/array calls against the published formula; monotonicity of the apparent
altitude on every adjacent pair (a transition of the walk up the sky); and the altitude query against it."""
import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from ..ref import spa
from .. import api
from . import poscases

PROP = "C07"
LIMIT = -0.83337


def ref(p, t, e):
    return spa.refraction(p, t, e)


def scalar(cases):
    """[backend, pressure, temperature, [angles]]"""
    out = Outcome()
    f = api.solar.get_refraction_correction
    for c in cases:
        b, p, t, es = c
        api.backend(b)
        with np.errstate(all="ignore"):
            want = ref(p, t, np.array(es, float))
        for e, w in zip(es, want):
            out.call()
            r = api.outcome(f, p, t, e)
            if abs(e - LIMIT) < 1e-9:
                if r[0] != "ok" or not 0 <= r[1] < 2:
                    out.fail([b, p, t, [e]], "refraction at the limit: %r" % (r,))
                continue
            if r[0] != "ok":
                out.fail([b, p, t, [e]], "raised %s: %s" % r[1:])
            elif w == 0 and not r[1] == 0 or not abs(r[1] - w) <= 1e-9 * max(1e-3, abs(w)):
                out.fail([b, p, t, [e]], "refraction %r, published %r" % (r[1], w))
            else:
                out.ok()
    return out


def array(cases):
    out = Outcome()
    f = api.solar.get_refraction_correction
    api.backend("numpy")
    for c in cases:
        p, t, es, shape = c
        e = np.array(es, float).reshape(shape)
        with np.errstate(all="ignore"):
            w = ref(np.array(p, float), np.array(t, float), e)
            r = api.outcome(f, np.array(p, float) if isinstance(p, list) else p, np.array(t, float) if isinstance(t, list) else t, e)
        out.call()
        if r[0] != "ok" or np.shape(r[1]) != np.shape(w) or not np.all(np.abs(r[1] - w) <= 1e-9 * np.maximum(1e-3, np.abs(w))):
            out.fail(c, "array refraction %r, published %r" % (str(r[1])[:200], str(w)[:200]))
        else:
            out.ok()
    return out


def monotone(cases):
    """consecutive true elevations lo < hi, both above the limit: the apparent altitude does not decrease"""
    out = Outcome()
    f = api.solar.get_refraction_correction
    for c in cases:
        b, p, t, lo, hi, n = c
        api.backend(b)
        prev = None
        for i in range(n + 1):
            e = lo + (hi - lo) * i / n
            a = e + f(p, t, e)
            out.call()
            if prev is not None and not a >= prev - 1e-12:
                out.fail(c, "apparent altitude falls from %r to %r at true elevation %r" % (prev, a, e))
                break
            prev = a
        else:
            out.ok()
    return out


def proportional(cases):
    out = Outcome()
    f = api.solar.get_refraction_correction
    for c in cases:
        b, p, t, e, k = c
        api.backend(b)
        r0, rp, rt = f(p, t, e), f(p * k, t, e), f(p, t * k, e)
        out.call(3)
        if abs(rp - r0 * k) <= 1e-11 * max(1, abs(rp)) and abs(rt * k - r0) <= 1e-11 * max(1, abs(r0)):
            out.ok()
        else:
            out.fail(c, "%r; pressure x%g: %r; temperature x%g: %r" % (r0, k, rp, k, rt))
    return out


def query(cases):
    """altitude(p, t) - altitude(p=0) is the correction of the airless altitude"""
    out = Outcome()
    s = api.solar
    for c in cases:
        w, lat, lon, el, t, p, b = c
        when = D.dt(w)
        api.backend(b)
        a0 = s.get_altitude(lat, lon, when, el, t, 0)
        a0b = s.get_altitude(lat, lon, when, el, 250.0, 0.0)
        a1 = s.get_altitude(lat, lon, when, el, t, p)
        a2 = s.get_position(lat, lon, when, el, t, p)[1]
        out.call(4)
        want = float(ref(p, t, float(a0)))
        if abs(a0 - LIMIT) < 1e-9 or (a0 == a0b and abs(a1 - a0 - want) <= 1e-8 and abs(a2 - a0 - want) <= 1e-8):
            out.ok()
        else:
            out.fail(c, "airless %r/%r, with air %r/%r, correction of the airless altitude %r" % (a0, a0b, a1, a2, want))
    return out


def horizon_cases(th):
    """sun near the horizon: minute-by-minute sunrises at several places"""
    res = []
    for la, lo, y, m, d, h in ((52.0, 13.0, 2019, 3, 21, 5), (-33.0, 151.0, 2010, 12, 21, 19), (65.0, 20.0, 1999, 6, 21, 0), (0.0, 0.0, 2024, 9, 22, 5)):
        for k in range(0, 120, 1 if th else 3):
            for p, t in ((101325.0, 288.15), (70000.0, 250.0), (110000.0, 320.0)):
                res.append([D.W(y, m, d, h + k // 60, k % 60), la, lo, 0, t, p, ("math", "numpy")[k % 2]])
    return res


def spaces(tier):
    th = tier == "thorough"
    n = 36001 if th else 7201
    es = [-90 + 180 * i / (n - 1) for i in range(n)]
    fine = [LIMIT + s * 10.0 ** -k for k in range(1, 9) for s in (-1, 1)] + [-5.11, -5.11 + 1e-12, -5.11 - 1e-12, -5.110001, -5.109999, 0.0, -0.0, 1e-300, 90.0, -90.0, -0.8333, -0.8334] + \
        [-0.9 + 0.0005 * i for i in range(400)] + [-5.2 + 0.001 * i for i in range(200)]
    grid = sorted(set(es + fine))
    pt = D.product(D.stride(D.PRESS, 20 if th else 7), D.stride(D.TEMPS, 21 if th else 6))
    sc = []
    for i, (p, t) in enumerate(pt):
        for b in api.BACKENDS:
            g = fine if (i % 4 and not th) else grid
            sc += [[b, p, t, g[k:k + 500]] for k in range(0, len(g), 500)]
    for b in api.BACKENDS:
        sc += [[b, 101325.0, 288.15, grid[k:k + 500]] for k in range(0, len(grid), 500)]
        sc += [[b, p, t, [-1, 0, 1, 10, 45, 89, 90, -90, -5]] for p in (100000, 50000) for t in (250, 300)]    # ints
    arr = [[p, t, fine[:48], sh] for p in (101325.0, 0.0, 50000) for t in (288.15, 230) for sh in ([48], [6, 8], [48, 1], [2, 4, 6])]
    arr += [[[50000.0, 101325.0, 0.0], [250.0, 288.15, 310.0], [e] * 3, [3]] for e in (-10.0, -0.834, -0.833, 0.0, 10.0, 90.0)]
    mono = []
    for b in api.BACKENDS:
        for p, t in pt + [[110000.0, 180.0], [101325.0, 288.15]]:
            mono.append([b, p, t, LIMIT + 1e-6, 2.0, 600])
            mono.append([b, p, t, 2.0, 90.0, 600])
    prop = [[b, p, t, e, k] for b in api.BACKENDS for p in D.PRESS for t in D.TEMPS for e in (-5.11, -0.9, -0.8, -0.2, 0.0, 3.3, 45.0, 90.0) for k in (0.5, 1.1)]
    fam = poscases.families(th)
    return [Space("angles", sc, scalar, chunk=8), Space("arrays", arr, array, chunk=20), Space("walk-up", mono, monotone, chunk=8),
            Space("proportionality", prop, proportional, chunk=1000), Space("near-horizon", horizon_cases(th), query, chunk=100),
            Space("altitude-query", fam["written corners"] + fam["mixed"][::1 if th else 4] + fam["axes"][::1 if th else 4], query, chunk=200)]
