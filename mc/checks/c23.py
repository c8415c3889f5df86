"""Standard-atmosphere reference model executed against the elevation functions on products of elevation x base pressure x base temperature x lapse rate x base
height x gas constants, plus the laws that bind several calls: monotone ladders, two-layer climbs, warnings on either side of 11 km."""
import math
import warnings

from .. import domains as D
from ..core import Space, Outcome
from .. import api

PROP = "C23"
P0, T0, L0, R0, G0, M0 = 101325.0, 288.15, -0.0065, 8.31432, 9.80665, 0.0289644


def barometric(h, Ps=P0, Ts=T0, Tl=L0, Hb=0.0, R=R0, g=G0, M=M0):
    return Ps * math.exp(-g * M / (R * Tl) * math.log((Ts + Tl * (h - Hb)) / Ts))


NAMES = ["h", "Ps", "Ts", "Tl", "Hb", "R", "g", "M"]


def close(a, b, rel=1e-10):
    return a == a and abs(a - b) <= rel * max(abs(a), abs(b))


def values(cases):
    """[given arguments as {name: value}, number passed positionally]"""
    out = Outcome()
    for kw, npos, b in cases:
        api.backend(b)
        args = [kw[n] for n in NAMES[:npos]]
        rest = {n: v for n, v in kw.items() if n not in NAMES[:npos]}
        with D.heard() as ws:
            r = api.outcome(api.elevation.get_pressure_with_elevation, *args, **rest)
        out.call()
        ref = barometric(**kw)
        if r[0] != "ok" or not close(float(r[1]), ref):
            out.fail([kw, npos, b], "pressure %r, barometric formula %r" % (r[1:], ref))
        elif bool(ws) != (kw["h"] > 11000):
            out.fail([kw, npos, b], "%d warnings at %r m" % (len(ws), kw["h"]))
        else:
            out.ok()
        tk = {n: v for n, v in kw.items() if n in ("h", "Ts", "Tl")}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            t = api.outcome(api.elevation.get_temperature_with_elevation, **tk)
        out.call()
        tref = kw.get("Ts", T0) + kw["h"] * kw.get("Tl", L0)
        if t[0] != "ok" or abs(float(t[1]) - tref) > 1e-9:
            out.fail([kw, npos, b], "temperature %r, linear %r" % (t[1:], tref))
        else:
            out.ok()
    return out


def temperatures(cases):
    """[h, Ts, Tl, number passed positionally]: the linear law for every lapse rate, none at all included"""
    out = Outcome()
    for c in cases:
        api.backend(c[4])
        r = api.outcome(api.elevation.get_temperature_with_elevation, *c[:c[3]], **{n: v for n, v in zip(("h", "Ts", "Tl"), c[:3]) if n not in ("h", "Ts", "Tl")[:c[3]]})
        out.call()
        ref = c[1] + c[0] * c[2]
        if r[0] != "ok" or not abs(float(r[1]) - ref) <= 1e-9 * max(1, abs(ref)):
            out.fail(c, "temperature %r, linear %r" % (r[1:], ref))
        else:
            out.ok()
    return out


def ladders(cases):
    """[parameters, step]: positive and strictly decreasing up to 11 km, base pressure at the base height"""
    out = Outcome()
    for kw, hs in cases:
        api.backend("math")
        prev = None
        msg = None
        hb = kw.get("Hb", 0.0)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            at = api.outcome(api.elevation.get_pressure_with_elevation, hb, **kw)
            if at[0] != "ok" or not close(float(at[1]), kw.get("Ps", P0)):
                msg = "pressure at the base height: %r" % (at[1:],)
            for h in hs:
                r = api.outcome(api.elevation.get_pressure_with_elevation, h, **kw)
                out.call()
                if r[0] != "ok" or not float(r[1]) > 0 or prev is not None and not float(r[1]) < prev:
                    msg = msg or "at %r m: %r after %r" % (h, r[1:], prev)
                    break
                prev = float(r[1])
        if ws:
            msg = msg or "warning at or below 11000 m: %s" % ws[0].message
        if msg:
            out.fail([kw, hs], msg)
        else:
            out.ok(len(hs))
    return out


def layers(cases):
    """[h1, h2, parameters]: climbing to h1 and from there to h2 is climbing to h2"""
    out = Outcome()
    for c in cases:
        h1, h2, kw = c
        f, t = api.elevation.get_pressure_with_elevation, api.elevation.get_temperature_with_elevation
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tk = {k: v for k, v in kw.items() if k in ("Ts", "Tl")}
            r = api.outcome(lambda: (float(f(h2, **kw)), float(f(h2, **dict(kw, Ps=f(h1, **kw), Ts=t(h1, **tk), Hb=h1)))))
        out.call(4)
        if r[0] == "ok" and close(r[1][0], r[1][1], 1e-9):
            out.ok()
        else:
            out.fail(c, "in one layer and in two: %r" % (r[1:],))
    return out


def spaces(tier):
    th = tier == "thorough"
    H = [0, 1, -430.0, -28.0, 0.5, 11.0, 100, 500.0, 999.9, 1000.0, 1830.14, 2500.0, 5500, 8848.86, 10999.999, 11000, 11000.0, 11000.001, 11001, 12000.0, 15000.0, 20000]
    axes = dict(Ps=[101325.0, 100000, 90000.0, 1.0, 120000.0, 0.0, 0], Ts=[288.15, 220.0, 250, 273.15, 310.0, 330.0], Tl=[-0.0065, -0.0098, -0.004, -0.001, 0.001, 0.005], Hb=[0.0, 100, 500.0, -100.0, 2000.0, 9000.0],
                R=[8.31432, 8.3144626, 8.0], g=[9.80665, 9.78, 9.83, 1.62, 0.0], M=[0.0289644, 0.028, 0.044, 0.0])
    cs = []
    names = list(axes)
    for h in H:
        cs.append([{"h": h}, 1, "math"])
        cs.append([{"h": h}, 0, "numpy"])
        for n in names:
            for v in axes[n]:
                cs.append([{"h": h, n: v}, 1, "math"])
    for h in (H if th else H[::4]):
        for combo in D.product(*[axes[n] if th else axes[n][::2] for n in names[:4]]):
            kw = dict(zip(["h"] + names[:4], [h] + combo))
            if kw["Ts"] + kw["Tl"] * (h - kw["Hb"]) > 20:
                cs.append([kw, 1 + len(cs) % 5, "math" if len(cs) % 2 else "numpy"])
        for combo in D.product(*[axes[n] for n in names[4:]]):
            kw = dict(h=h, Ps=95000.0, Ts=280.0, Tl=-0.006, Hb=200.0)
            kw.update(zip(names[4:], combo))
            cs.append([kw, len(cs) % 9, "math"])
    up = [x * 1.0 for x in range(-500, 11001, 10 if th else 50)]
    lad = [[kw, up] for kw in [{}] + [{n: v} for n in names for v in axes[n] if v or n == "Hb"]]
    hs = [-400.0, 0.0, 10.0, 500.0, 1000.0, 2999.0, 5000.0, 8000.0, 10999.0, 11000.0]
    lay = [[a, b, kw] for a in hs for b in hs for kw in ({}, {"Ts": 300.0}, {"Tl": -0.009}, {"Ps": 90000.0, "Tl": 0.002}, {"g": 9.78, "M": 0.03}, {"R": 8.0})]
    tem = [[h, t, l, (i + j + k) % 4, ("math", "numpy")[(i + k) % 2]] for i, h in enumerate(H + [-0.0, 1e-9, 1e5, -11000.0, 32000]) for j, t in enumerate((288.15, 0.0, 0, 1.0, 250, 330.0, 15.0)) for k, l in enumerate((0.0, 0, -0.0, -0.0065, 0.0065, 1e-12, -0.0098, -0.0028, 1, -1))]
    return [Space("temperatures", tem, temperatures, chunk=400), Space("ladders", lad, ladders, chunk=4), Space("layers", lay, layers, chunk=100), Space("values", cs, values, chunk=200)]
