"""Plausibility of the sky estimates on the products of instant x place x atmosphere x turbidity x air mass with the sun up, and evaluability of the REST2 diffuse and global
estimates over an altitude ladder.  The recorded findings are recognised by their exact present value (the formula as coded) or error; anything else that is implausible is
reported."""
from .. import domains as D
from ..core import Space, Outcome
from .. import api
from . import c26

PROP = "C29"
LIMIT = 1.036 * 1367
KEYS = {"util.direct_underclear": "direct_exp_declination", "util.diffuse_underclear": "diffuse_times_degrees", "util.diffuse_underovercast": "diffuse_times_degrees",
        "util.global_irradiance_clear": "global_clear_sum", "util.global_irradiance_overcast": "overcast_times_degrees"}


def estimates(cases):
    """[lat, lon, when, optional arguments, backend]"""
    out = Outcome()
    for c in cases:
        api.backend(c[4])
        e = dict(api.DEFAULTS, latitude_deg=c[0], longitude_deg=c[1], when=D.dt(c[2]), **c[3])
        if not c26.altitude(e) > 0:
            continue
        for name, key in KEYS.items():
            kw = {p: e[p] for p in api.TIMED[name] if p in c[3] or p not in api.DEFAULTS}
            r = api.outcome(api.fn(name), **kw)
            out.call()
            if r[0] == "ok" and 0 <= float(r[1]) <= LIMIT:
                out.ok()
                continue
            ref, size = c26.formula(name, {p: e[p] for p in api.TIMED[name]})
            coded = r[0] == "ok" and abs(float(r[1]) - ref) <= 1e-9 * size
            out.fail(c, "%s gives %r" % (name, r[1:]), key if coded else None)
    return out


def rest_diffuse(cases):
    """[function, arguments, backend]"""
    out = Outcome()
    for c in cases:
        name, args, b = c
        api.backend(b)
        r = api.outcome(api.fn(name), *args)
        out.call()
        if r[0] == "ok":
            try:
                good = 0 <= float(r[1]) <= 1345.2
            except (TypeError, ValueError):
                good = False
            if good:
                out.ok()
            else:
                out.fail(c, "%s gives %r" % (name, r[1]))
        else:
            known = r[1] == "NameError"
            out.fail(c, "%s raised %s: %s" % (name, r[1], r[2]), "rest_diffuse_names" if known else None)
    return out


def spaces(tier):
    th = tier == "thorough"
    cs = []
    opts = [{}, {"TL": 0.1}, {"TL": 3.0}, {"AM": 1.0, "TL": 0.6}, {"elevation": 3000.0, "pressure": 70000.0}, {"temperature": 250.0}, {"TY": 366, "AM": 1.5}]
    lats, lons = (D.LATS, D.LONS[::3]) if th else (D.stride(D.LATS, 13), D.stride(D.LONS, 5))
    k = 0
    for la in lats:
        for lo in lons:
            for m in range(1, 13):
                for h in range(k % 3, 24, 3 if th else 6):
                    k += 1
                    cs.append([la, lo, D.W(1990 + k % 40 if k % 3 else D.ALL_YEARS[1:-1][k // 3 % (len(D.ALL_YEARS) - 2)], m, 1 + k % 28, h, k % 60, 0, 0, D.OFFSETS[k % len(D.OFFSETS)]), opts[k % len(opts)], api.BACKENDS[k // 2 % 2]])
    rd = []
    for b in api.BACKENDS:
        for band in ("high-frequency", "low-frequency"):
            rd += [["rest.get_diffuse_irradiance_by_band", [band] + a, b] for a in ([], [1.66], [1.66, 1.3, 0.1])]
            rd += [["rest.get_backscattered_diffuse_broadband_irradiance", [band] + a, b] for a in ([], [1.3, 0.1])]
        rd += [["rest.get_diffuse_broadband_irradiance", a, b] for a in ([], [1.66], [2.0, 1.3, 0.1])]
        rd += [["rest.get_global_broadband_irradiance", [a] + x, b] for a in (0.5, 1.0, 5.0, 10.0, 20.0, 30.0, 45.0, 60.0, 75.0, 90.0) for x in ([], [1013.25, 0.35, 0.0002, 1.5, 1.3, 0.1])]
    return [Space("rest2 diffuse", rd, rest_diffuse), Space("estimates", cs, estimates, chunk=100)]
