"""Every call shape (any split into positional and keyword arguments, any omission of optional ones) of the eight sky estimates, with a distinctive value in every
argument, against the published formulas evaluated on the altitude that the position query gives for the effective arguments; then products of
instant x place x atmosphere x turbidity x air mass x year length, on both backends."""
import math

from .. import corners, domains as D
from ..core import Space, Outcome
from ..ref import textbook
from .. import api

PROP = "C26"
FUNCS = ["util.solarelevation_function_clear", "util.solarelevation_function_overcast", "util.diffuse_underclear", "util.diffuse_underovercast", "util.direct_underclear",
         "util.global_irradiance_clear", "util.global_irradiance_overcast"]


def transmittance(tl):
    return -21.657 + 41.752 * tl + 0.51905 * tl * tl


def altitude(e):
    return float(api.solar.get_altitude(e["latitude_deg"], e["longitude_deg"], e["when"], e["elevation"], e["temperature"], e["pressure"]))


def formula(name, e):
    """(value, size of the largest term)"""
    alt = altitude(e)
    s = math.sin(math.radians(alt))
    n = textbook.fields(e["when"])[0]
    kd = textbook.earth_sun(n)
    if name == "util.solarelevation_function_clear":
        return 0.038175 + 1.5458 * s - 0.59980 * s * s, 1.0
    if name == "util.solarelevation_function_overcast":
        return -0.0067133 + 0.78600 * s + 0.22401 * s * s, 1.0
    if name == "util.global_irradiance_overcast":
        return 572 * alt, 572 * 90.0
    diffuse = kd * transmittance(e["TL"]) * alt if "TL" in e else None
    if name in ("util.diffuse_underclear", "util.diffuse_underovercast"):
        return diffuse, 90.0 * (abs(transmittance(e["TL"])) + 21)
    x = -0.8662 * e["AM"] * e["TL"] * textbook.declination(n, e["TY"])
    direct = 1367 * kd * math.exp(x) * s
    size = 1367 * math.exp(x)
    if name == "util.direct_underclear":
        return direct, size
    return direct + diffuse, size + 90.0 * (abs(transmittance(e["TL"])) + 21)


def compare(out, c, name, r, e):
    ref, size = formula(name, e)
    out.call()
    if r[0] == "ok" and abs(float(r[1]) - ref) <= 1e-9 * size:
        out.ok()
    else:
        out.fail(c, "%s gives %r, formula %r for %r" % (name, r[1:], ref, {k: str(v) for k, v in e.items()}))


def shapes(cases):
    """[function, number of positional arguments, keyword names, instant and place, values, backend]"""
    out = Outcome()
    for c in cases:
        name, npos, kws, where, vals, b = c
        api.backend(b)
        params = api.TIMED[name]
        v = dict(vals, latitude_deg=where[0], longitude_deg=where[1], when=D.dt(where[2]))
        r = api.outcome(api.apply_shape, api.fn(name), params, (npos, kws), v)
        compare(out, c, name, r, api.effective(params, (npos, kws), v))
    return out


def products(cases):
    """[lat, lon, when, elevation, temperature, pressure, TY, AM, TL, backend]: all functions, and the sum law between them"""
    out = Outcome()
    for c in cases:
        api.backend(c[9])
        e = dict(latitude_deg=c[0], longitude_deg=c[1], when=D.dt(c[2]), elevation=c[3], temperature=c[4], pressure=c[5], TY=c[6], AM=c[7], TL=c[8])
        got = {}
        for name in FUNCS:
            kw = {p: e[p] for p in api.TIMED[name]}
            got[name] = api.outcome(api.fn(name), **kw)
            compare(out, c, name, got[name], kw)
        if all(r[0] == "ok" for r in got.values()):
            g, d, f = [float(got["util." + n][1]) for n in ("global_irradiance_clear", "direct_underclear", "diffuse_underclear")]
            if abs(g - (d + f)) <= 1e-9 * (abs(d) + abs(f) + 1):
                out.ok()
            else:
                out.fail(c, "global %r is not direct %r plus diffuse %r" % (g, d, f))
    return out


def turbidity(cases):
    out = Outcome()
    for c in cases:
        tl, form, b = c
        api.backend(b)
        f = api.util.diffuse_transmittance
        r = api.outcome(f) if form == "default" else api.outcome(f, tl) if form == "pos" else api.outcome(f, TL=tl)
        ref = transmittance(1.0 if form == "default" else tl)
        out.call()
        if r[0] == "ok" and abs(float(r[1]) - ref) <= 1e-9 * (1 + abs(ref)):
            out.ok()
        else:
            out.fail(c, "transmittance %r, formula %r" % (r[1:], ref))
    return out


VALUES = [dict(elevation=1830.14, temperature=255.0, pressure=82000.0, TY=360, AM=1.25, TL=0.75),
          dict(elevation=-100.0, temperature=310, pressure=104000.0, TY=366.0, AM=0.5, TL=0.25),
          dict(elevation=4000, temperature=231.5, pressure=0.0, TY=1000, AM=0, TL=2.5),
          dict(elevation=0.0, temperature=288.15, pressure=101325.0, TY=365, AM=2.0, TL=0)]
PLACES = [[42.2, -71.4, D.W(2010, 8, 13, 15, 20, 3, 250000)], [-33.5, 151.2, D.W(2016, 12, 31, 23, 30, 0, 0, 39600)], [64.1, -21.9, D.W(2003, 3, 20, 7, 5, 59)], [0.0, 0.0, D.W(2024, 2, 29, 22)]]


def spaces(tier):
    th = tier == "thorough"
    tu = [[x / 10, f, b] for x in range(0, 101) for f in ("pos", "kw") for b in api.BACKENDS] + [[None, "default", b] for b in api.BACKENDS] + [[3, "pos", "math"]]
    sh, k = [], 0
    for name in FUNCS:
        params = api.TIMED[name]
        optional = [p for p in params if p in api.DEFAULTS]
        for npos, kws in api.shapes(params, optional):
            for vi in range(len(VALUES) if th else 1):
                for pi in range(len(PLACES) if th else 1):
                    k += 1
                    sh.append([name, npos, kws, PLACES[(k + pi) % len(PLACES)], VALUES[(k // 3 + vi) % len(VALUES)] if not th else VALUES[vi], api.BACKENDS[k % 2]])
    pr = []
    n = 30000 if th else 4500
    ax = [D.WIDE_LATS, D.WIDE_LONS + [1080.5], list(range(n)), D.WIDE_ELEVS, D.WIDE_TEMPS, D.WIDE_PRESS, [365, 366, 365.25, 360], [2.0, 1.0, 1.5, 0.0, 3.0], [1.0, 0.5, 2.0, 0.0, 3.5], api.BACKENDS]
    for i, x in enumerate(D.interleaved(n, *ax)):
        y, m = (D.ALL_YEARS[i // 2 % len(D.ALL_YEARS)] if i % 2 else 1900 + i * 7 % 200), 1 + i % 12
        d = 2 + i % (D.mlen(y, m) - (1 if (y, m) != (9999, 12) else 2)) if i % 5 else 2 if y == 1 and m == 1 else 30 if (y, m) == (9999, 12) else (1, D.mlen(y, m))[i % 2]
        x[2] = D.W(y, m, d, i * 5 % 24, i * 11 % 60, i % 60, (0, 1, 999999, 500000)[i % 4], D.OFFSETS[i % len(D.OFFSETS)])
        pr.append(x)
    cor = [[c[1], c[2], c[0], c[3], c[4], c[5], [365, 366, 365.25, 360, 0.5][i % 5], [2.0, 1.0, 0, 1e-4][i % 4], [1.0, 0.5, 2.0, 1e-5, 0, 3.5][i % 6], c[6]] for i, c in enumerate(corners.positions())]
    return [Space("written corners", cor, products, chunk=60), Space("turbidity", tu, turbidity), Space("call shapes", sh, shapes, chunk=200), Space("products", pr, products, chunk=60)]
