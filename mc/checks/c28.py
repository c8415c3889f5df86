"""REST2 direct beam: published parameterisation (table-driven reference) and physical laws checked on the products of band x altitude ladder x pressure x amounts x
turbidity, with ladders in altitude, turbidity and every amount; sums of bands, beam = direct normal x sine of the altitude, and every split of the call."""
import math

from .. import domains as D
from ..core import Space, Outcome
from ..ref import rest2 as R
from .. import api

PROP = "C28"
BANDS = {"high-frequency": 1, "low-frequency": 2}
PARAMS = ["altitude_deg", "pressure_millibars", "ozone_atm_cm", "nitrogen_atm_cm", "precipitable_water_cm", "turbidity_alpha", "turbidity_beta"]
DEFAULT = [1013.25, 0.35, 0.0002, 5.0, 1.3, 0.6]
LADDER = sorted(set([0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 10.0, 12.0, 15.0, 17.5, 20.0, 22.5, 25.0, 27.5, 30.0, 33.3] + [float(x) for x in range(35, 91, 5)] + [87.5, 89.0, 89.9]))
EXTRA = 635.4 + 709.7


def close(a, b, rel=1e-9):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= rel * max(abs(b), 1e-300) or a == b


def real(x):
    """python float of a real scalar, or None"""
    try:
        return None if isinstance(x, complex) or getattr(x, "imag", 0) != 0 else float(x)
    except (TypeError, ValueError):
        return None


def masses(cases):
    """[altitudes, pressure, backend]"""
    out = Outcome()
    for alts, p, b in cases:
        api.backend(b)
        for kind in R.MASS:
            f = api.fn("rest.get_optical_mass_" + kind)
            prev = None
            for a in alts:
                r = api.outcome(f, a, p) if kind == "rayleigh" else api.outcome(f, a)
                out.call()
                scale = p / 1013.25 if kind == "rayleigh" else 1.0
                v = real(r[1]) if r[0] == "ok" else None
                msg = None
                if v is None or not close(v, R.mass(kind, a) * scale):
                    msg = "%r, published %r" % (r[1:], R.mass(kind, a) * scale)
                elif v < 0.9997 * scale or a == 90 and abs(v - scale) > 1e-12:
                    msg = "%r is below 1 or not 1 at the zenith" % v
                elif prev is not None and a <= 85 and not v < prev:
                    msg = "%r does not decrease from %r" % (v, prev)
                if msg:
                    out.fail([a, p, b], "%s mass at %r: %s" % (kind, a, msg))
                    break
                out.ok()
                prev = v
    return out


def transmittances(cases):
    """[band, altitude, pressure, alpha, beta, backend]: each factor of the direct beam, all amounts"""
    out = Outcome()
    for c in cases:
        band, alt, p, al, be, b = c
        api.backend(b)
        n = BANDS[band]
        mR, mo, mw, ma = R.mass("rayleigh", alt) * p / 1013.25, R.mass("ozone", alt), R.mass("water", alt), R.mass("aerosol", alt)
        M = api.rest
        todo = [("rayleigh", lambda: M.get_rayleigh_transmittance(band, mR), lambda: R.rayleigh(n, mR)), ("gas", lambda: M.get_gas_transmittance(band, mR), lambda: R.gas(n, mR))]
        todo += [("ozone %r" % u, lambda u=u: M.get_ozone_transmittance(band, mo, u), lambda u=u: R.ozone(n, mo, u)) for u in (0.0, 0.1, 0.2, 0.35, 0.5, 0.6)]
        todo += [("nitrogen %r" % u, lambda u=u: M.get_nitrogen_transmittance(band, mw, u), lambda u=u: R.nitrogen(n, mw, u)) for u in (0.0, 0.0001, 0.0002, 0.0005, 0.001)]
        todo += [("water %r" % u, lambda u=u: M.get_water_vapor_transmittance(band, mw, u), lambda u=u: R.water(n, mw, u)) for u in (0.0, 0.1, 1.0, 1.5, 5.0, 10)]
        for name, f, g in todo:
            r = api.outcome(f)
            out.call()
            v, ref = real(r[1]) if r[0] == "ok" else None, g()
            if v is None or not close(v, ref) or not 0 < v <= 1:
                out.fail(c, "%s transmittance %r, published %r" % (name, r[1:], ref))
            else:
                out.ok()
        # aerosol: wavelength, depth, transmittance
        w = api.outcome(M.get_effective_aerosol_wavelength, band, ma, al, be)
        ref = R.wavelength(n, ma, al, be)
        out.call()
        wl = real(w[1]) if w[0] == "ok" else None
        if wl is None or not close(wl, ref) or not 0.29 < wl < 4:
            out.fail(c, "effective wavelength %r, published %r" % (w[1:], ref))
            continue
        t = api.outcome(lambda: (M.get_aerosol_optical_depth(be, wl, al), M.get_aerosol_transmittance(band, ma, M.get_aerosol_optical_depth(be, wl, al)),
                                 M.get_aerosol_scattering_transmittance(band, ma, M.get_aerosol_optical_depth(be, wl, al))))
        tau = be * wl ** -al
        want = (tau, math.exp(-ma * tau), math.exp(-ma * R.ALBEDO[n] * tau))
        out.call(3)
        if t[0] != "ok" or any(real(x) is None or not close(real(x), y) for x, y in zip(t[1], want)) or not 0 <= want[1] <= 1:
            out.fail(c, "aerosol depth and transmittances %r, expected %r" % (t[1:], want))
        else:
            out.ok(3)
    return out


def irradiance(cases):
    """[parameters besides the varied one, varied index, its ladder, backend, form]"""
    out = Outcome()
    tol = 1e-9 * EXTRA
    for c in cases:
        base, vary, ladder, b, form = c
        api.backend(b)
        M = api.rest
        prev = None
        for x in ladder:
            args = list(base)
            args[vary] = x
            alt = args[0]

            def call(f, *first):
                if form == "kw":
                    return f(*first, **dict(zip(PARAMS, args)))
                if form == "mixed":
                    return f(*first, *args[:3], **dict(zip(PARAMS[3:], args[3:])))
                return f(*first, *args)
            per = {}
            for band, n in BANDS.items():
                per[n] = api.outcome(call, M.get_direct_normal_irradiance_by_band, band)
                per[-n] = api.outcome(call, M.get_beam_irradiance_by_band, band)
            per["n"], per["b"] = api.outcome(call, M.get_broadband_direct_normal_irradiance), api.outcome(call, M.get_beam_broadband_irradiance)
            out.call(6)
            s = math.sin(math.radians(alt))
            dn = {n: R.direct_normal(n, *args) for n in (1, 2)}
            want = {1: dn[1], 2: dn[2], -1: dn[1] * s, -2: dn[2] * s, "n": dn[1] + dn[2], "b": (dn[1] + dn[2]) * s}
            vals = {k: real(r[1]) if r[0] == "ok" else None for k, r in per.items()}
            # nitrogen dioxide absorbs in the first band only
            grown = vals[1] if vary == 3 else vals["n"]
            msg = None
            if any(v is None or not (close(v, want[k], 1e-8) or abs(v - want[k]) <= 1e-12 * EXTRA) for k, v in vals.items()):
                msg = "irradiances %r, published %r" % ({k: r[1:] for k, r in per.items()}, want)
            elif abs(vals["n"] - vals[1] - vals[2]) > tol or abs(vals["b"] - vals[-1] - vals[-2]) > tol:
                msg = "broadband %r is not the sum of the bands" % vals
            elif any(abs(vals[y] - vals[x1] * s) > tol for x1, y in ((1, -1), (2, -2), ("n", "b"))):
                msg = "beam is not direct normal times sin(altitude): %r" % vals
            elif not (0 < vals["n"] < EXTRA and 0 < vals[1] < R.E0[1] and 0 < vals[2] < R.E0[2]):
                msg = "direct normal irradiance %r is not between 0 and the extraterrestrial one" % vals
            elif prev is not None and vary == 0 and alt <= 85 and not vals["n"] > prev:
                msg = "does not grow with altitude: %r, %r" % (prev, vals["n"])
            elif prev is not None and vary in (1, 3, 6) and not grown < prev:
                msg = "does not shrink with %s: %r, %r" % (PARAMS[vary], prev, grown)
            if msg:
                out.fail([args, b, form], msg)
                break
            out.ok(6)
            prev = grown
    return out


def splits(cases):
    """[function, bands, positional arguments, keyword names, values, backend]: every split of the call, omitted arguments at their defaults"""
    out = Outcome()
    for c in cases:
        name, band, npos, kws, vals, b = c
        api.backend(b)
        v = dict(zip(PARAMS, vals))
        first = [band] if band else []
        given = set(PARAMS[:npos]) | set(kws)
        e = [v[p] if p in given else d for p, d in zip(PARAMS, [None] + DEFAULT)]
        r = api.outcome(lambda: api.fn(name)(*first, *[v[p] for p in PARAMS[:npos]], **{k: v[k] for k in kws}))
        out.call()
        want = sum(R.direct_normal(n, *e) for n in ([BANDS[band]] if band else [1, 2])) * (math.sin(math.radians(e[0])) if "beam" in name else 1)
        if r[0] == "ok" and real(r[1]) is not None and close(real(r[1]), want, 1e-8):
            out.ok()
        else:
            out.fail(c, "%s gives %r, published %r" % (name, r[1:], want))
    return out


def spaces(tier):
    th = tier == "thorough"
    ALTS = [x / 4 if x % 7 else x // 4 for x in range(0, 361) if x % 7 or x % 4 == 0]
    ms = [[ALTS, p, b] for p in (300.0, 500, 700.0, 850.0, 1013.25, 1100.0) for b in api.BACKENDS]
    A = [1.0, 1.1, 1.2, 1.3, 1.4, 1.5, 1.6]
    B = [0.0, 0.01, 0.02, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6]
    tr, k = [], 0
    for band in BANDS:
        for alt in (LADDER if th else D.stride(LADDER, 20)):
            for p in ((300.0, 500.0, 800.0, 1013.25, 1100.0) if th else (300.0, 1013.25)):
                for al in A:
                    for be in B:
                        k += 1
                        tr.append([band, alt, p, al, be, api.BACKENDS[k % 2]])
    P, O, N, Wt = [300.0, 1013.25, 1100], [0.35, 0.0, 0.2, 0.6], [0.0002, 0.0, 0.001], [1.5, 0.0, 5.0, 10.0]
    ir = []
    forms = ["pos", "kw", "mixed"]
    for p in P:
        for o in (O if th else O[:3]):
            for n in N:
                for w in Wt:
                    for al in (A if th else A[::3]):
                        for be in (B if th else B[::2]):
                            k += 1
                            ir.append([[0.0, p, o, n, w, al, be], 0, LADDER if th or k % 3 == 0 else LADDER[k % 3::3], api.BACKENDS[k % 2], forms[k % 3]])
                        k += 1
                        for alt in (LADDER if th else (1.0, 10.0, 30.0, 60.0, 90.0)):
                            ir.append([[alt, p, o, n, w, al, 0.0], 6, B, api.BACKENDS[k % 2], forms[k % 3]])
    for alt in LADDER:
        for al, be in ((1.3, 0.05), (1.0, 0.0), (1.6, 0.3)):
            ir.append([[alt, 0.0, 0.35, 0.0002, 1.5, al, be], 1, [300.0, 400.0, 600.0, 800.0, 1000.0, 1013.25, 1100.0], "math", "pos"])
            ir.append([[alt, 1013.25, 0.35, 0.0, 1.5, al, be], 3, [0.0, 0.0001, 0.0002, 0.0003, 0.0005, 0.001], "numpy", "pos"])
    # each amount alone through a fine ladder, the smallest ones included, at three settings of the others
    fine = {2: [0.0, 1e-9, 1e-6, 1e-5, 1e-4, 1e-3, 0.01] + [x / 20 for x in range(1, 13)], 3: [0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 5e-5, 1e-4, 2e-4, 2.5e-4, 3e-4, 4e-4, 5e-4, 7.5e-4, 1e-3],
            4: [0.0, 1e-9, 1e-6, 1e-4, 1e-3, 0.01] + [x / 4 for x in range(1, 21)] + [6.0, 7.5, 10.0], 5: [1 + x / 50 for x in range(31)], 6: [0.0, 1e-9, 1e-6, 1e-4, 1e-3, 0.005] + [x / 50 for x in range(1, 31)],
            1: [300.0 + 12.5 * x for x in range(65)]}
    for vary, ladder in fine.items():
        for alt in LADDER:
            for base in ([alt, 1013.25, 0.35, 0.0002, 1.5, 1.3, 0.1], [alt, 700.0, 0.1, 0.001, 0.3, 1.0, 0.4], [alt, 850.0, 0.5, 0.0, 4.0, 1.6, 0.02]):
                k += 1
                ir.append([base, vary, ladder, api.BACKENDS[k % 2], forms[k % 3]])
    sp = []
    V = [[30.0, 800.0, 0.2, 0.001, 1.5, 1.1, 0.05], [7.5, 1100, 0.5, 0.0005, 3, 1.6, 0.2], [90.0, 300.0, 0.0, 0.0, 0.0, 1.0, 0.0]]
    for name, bands in (("rest.get_direct_normal_irradiance_by_band", list(BANDS)), ("rest.get_beam_irradiance_by_band", list(BANDS)), ("rest.get_broadband_direct_normal_irradiance", [None]), ("rest.get_beam_broadband_irradiance", [None])):
        for band in bands:
            for npos, kws in api.shapes(PARAMS, PARAMS[1:]):
                k += 1
                for vi in range(len(V) if th else 1):
                    sp.append([name, band, npos, kws, V[(k + vi) % 3], api.BACKENDS[k // 2 % 2]])
    return [Space("masses", ms, masses, chunk=2), Space("splits", sp, splits), Space("transmittances", tr, transmittances, chunk=150), Space("irradiance", ir, irradiance, chunk=40)]
