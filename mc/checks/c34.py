"""REST2 diffuse building blocks: each published function (table-driven reference) in every state of the products of band x altitude ladder x optical mass x turbidity x beam and
diffuse irradiances, the physical laws along each ladder (fractions in range, monotone, linear in the irradiance) and every split of the call into positional and keyword arguments."""
from .. import domains as D
from ..core import Space, Outcome
from ..ref import rest2 as R
from .. import api

PROP = "C34"
BANDS = {"high-frequency": 1, "low-frequency": 2}
ALPHAS = [1.0, 1.1, 1.2, 1.3, 1.4, 1.5, 1.6]
BETAS = [0.0, 1e-9, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6]
ALTS = [0.0, 0.01, 0.5, 1.0, 2.0, 5.0, 10.0, 15.5, 20.0, 25.0, 30.0, 33.3, 40.0, 45.0, 50.0, 55.0, 60.0, 65.0, 70.0, 75.0, 80.0, 85.0, 89.0, 90.0]
MASSES = [1.0, 1.001, 1.1, 1.5, 1.66, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, 15.0, 20.0, 25.0, 30.0, 38.0]
TAUS = [0.0, 1e-9, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5]
NAMES = {"forward": ("rest.get_aerosol_forward_scatterance_factor", ["altitude_deg"]),
         "depth": ("rest.get_aerosol_optical_depth", ["turbidity_beta", "effective_wavelength", "turbidity_alpha"]),
         "correction": ("rest.get_aerosol_scattering_correction_factor", ["band", "ma", "tau_a"]),
         "transmittance": ("rest.get_aerosol_transmittance", ["band", "ma", "tau_a"]),
         "scattering": ("rest.get_aerosol_scattering_transmittance", ["band", "ma", "tau_a"]),
         "rayleigh": ("rest.get_rayleigh_extinction_forward_scattering_fraction", ["band", "mR"]),
         "sky": ("rest.get_sky_albedo", ["band", "turbidity_alpha", "turbidity_beta"]),
         "ground": ("rest.get_ground_albedo", ["band"]),
         "back": ("rest.get_backscattered_diffuse_irradiance_by_band", ["band", "Ebi", "Edpi", "turbidity_alpha", "turbidity_beta"])}
GROUND = 0.15


def back(band, eb, ed, al, be):
    k = GROUND * R.sky_albedo(band, al, be)
    return k * (eb + ed) / (1 - k)


def reference(kind, a):
    n = BANDS.get(a[0]) if kind != "forward" and kind != "depth" else None
    import math
    return {"forward": lambda: R.forward_scatter(*a), "depth": lambda: a[0] * a[1] ** -a[2], "correction": lambda: R.correction(n, a[1], a[2]),
            "transmittance": lambda: math.exp(-a[1] * a[2]), "scattering": lambda: math.exp(-R.ALBEDO[n] * a[1] * a[2]), "rayleigh": lambda: R.rayleigh_forward(n, a[1]),
            "sky": lambda: R.sky_albedo(n, a[1], a[2]), "ground": lambda: GROUND, "back": lambda: back(n, *a[1:])}[kind]()


RANGE = {"forward": (0.5 - 1e-4, 0.92), "transmittance": (0, 1), "scattering": (0, 1), "sky": (0, 0.6), "ground": (0, 1), "depth": (0, 15)}


def check(cases):
    """[kind, fixed arguments, index of the varied one, its ladder, backend, number of positional arguments]"""
    out = Outcome()
    for c in cases:
        kind, base, vary, ladder, b, npos = c
        api.backend(b)
        name, params = NAMES[kind]
        f, prev = api.fn(name), None
        for x in ladder:
            a = list(base)
            a[vary] = x
            r = api.outcome(f, *a[:npos], **dict(zip(params[npos:], a[npos:])))
            out.call()
            ref = reference(kind, a)
            try:
                v = float(r[1]) if r[0] == "ok" else None
            except (TypeError, ValueError):
                v = None
            msg = None
            if v is None or not D.same_number(v, ref, 1e-9, 1e-12):
                msg = "%r, published %r" % (r[1:], ref)
            elif kind in RANGE and not RANGE[kind][0] <= v <= RANGE[kind][1]:
                msg = "%r is out of the physical range" % v
            elif prev is not None and (kind == "forward" or kind == "sky" and vary == 2 or kind == "back" and vary in (1, 2)) and not v > prev:
                msg = "%r does not grow from %r" % (v, prev)
            elif prev is not None and kind in ("transmittance", "scattering") and min(a[1], a[2]) > 0 and not v < prev:
                msg = "%r does not shrink from %r" % (v, prev)
            if msg:
                out.fail([kind, base, vary, [x], b, npos], "%s at %r: %s" % (name, a, msg))
                break
            out.ok()
            prev = v
    return out


def defaults(cases):
    """[band, beam, diffuse, backend]: the backscattered irradiance with its turbidity omitted (1.3 and 0.6)"""
    out = Outcome()
    for c in cases:
        band, eb, ed, b = c
        api.backend(b)
        f = api.fn(NAMES["back"][0])
        out.call(3)
        for r, want in ((api.outcome(f, band, eb, ed), back(BANDS[band], eb, ed, 1.3, 0.6)), (api.outcome(f, band, eb, Edpi=ed, turbidity_beta=0.1), back(BANDS[band], eb, ed, 1.3, 0.1)),
                        (api.outcome(f, band, eb, ed, 1.0), back(BANDS[band], eb, ed, 1.0, 0.6))):
            if r[0] != "ok" or not D.same_number(r[1], want, 1e-9, 1e-12):
                out.fail(c, "backscattered irradiance %r, expected %r" % (r[1:], want))
                break
        else:
            out.ok(3)
    return out


def spaces(tier):
    th = tier == "thorough"
    cs = []

    def add(kind, ladder_axis, *axes):
        """every combination of the other axes, the ladder along one axis"""
        n = len(NAMES[kind][1])
        fixed = [[None] if i == ladder_axis else ax for i, ax in enumerate(axes)]
        for base in D.product(*fixed):
            for b in api.BACKENDS:
                for npos in range(n + 1):
                    cs.append([kind, base, ladder_axis, axes[ladder_axis], b, npos])
    bands = list(BANDS)
    fine = [x / 16 for x in range(1441)] if th else [x / 4 for x in range(361)]
    add("forward", 0, sorted(set(ALTS + fine)))
    add("depth", 0, BETAS, [0.3, 0.5, 0.69, 1.0, 1.1, 2.0], [0.0, 0, 1e-9, 0.5] + ALPHAS + [2.0, 2.5])
    masses = sorted(set(MASSES + ([1 + x / 8 for x in range(300)] if th else [])))
    taus = sorted(set(TAUS + ([x / 50 for x in range(76)] if th else [])))
    for kind in ("correction", "transmittance", "scattering"):
        add(kind, 2, bands, masses, taus)
        add(kind, 1, bands, masses, taus)
    add("rayleigh", 1, bands, masses)
    als, bes = (sorted(set(ALPHAS + [1 + x / 50 for x in range(31)])), sorted(set(BETAS + [x / 50 for x in range(31)]))) if th else (ALPHAS, BETAS)
    add("sky", 2, bands, als, bes)
    add("sky", 1, bands, als, bes)
    add("ground", 0, bands)
    es = [0.0, 1e-6, 0.01, 1.0, 100.0, 400.0, 635.4, 709.7]
    for i in (1, 2):
        add("back", i, bands, es, es, ALPHAS if th else [1.0, 1.3, 1.6], BETAS if th else [0.0, 0.1, 0.6])
    return [Space("functions", cs, check, chunk=200), Space("defaults", D.product(bands, es, es, api.BACKENDS), defaults)]
