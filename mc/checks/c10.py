"""Two-state model of the numeric backend: every public function is executed in both states (math, numpy) for every case of a
finite product of argument alphabets; both executions must succeed with the same value or fail alike."""
import math

from .. import domains as D, functions
from ..core import Space, Outcome
from .. import api

PROP = "C10"
RANGE = ("util.direct_underclear", "util.global_irradiance_clear")     # exp() of a turbidity times an air mass: can leave the doubles


def same(name, a, b, args):
    va, vb = api.values(a), api.values(b)
    if len(va) != len(vb):
        return False
    loose = 0.0
    if "zimuth" in name or name.endswith("get_position") or "elevation_angle" in name or "altitude" in name or "incidence" in name \
            or "zenith" in name or "right_ascension" in name:
        for v in va:
            if isinstance(v, (int, float)) and min(abs(v % 180 - 90), v % 180, 180 - v % 180) < 0.05:
                loose = 5e-6      # asin, acos near +-1; the zenith
    for x, y in zip(va, vb):
        if hasattr(x, "isoformat") or hasattr(y, "isoformat"):
            if not (hasattr(x, "isoformat") and hasattr(y, "isoformat") and abs((x - y).total_seconds()) < 1e-3 and x.utcoffset() == y.utcoffset()):
                return False
            continue
        x, y = float(x), float(y)
        if D.same_number(x, y, 1e-9, 1e-9 + loose):
            continue
        if math.isfinite(x) and math.isfinite(y) and ("deg" not in name) and abs(D.angle_diff(x, y)) <= 1e-9 + loose and \
                ("zimuth" in name or "position" in name or "longitude" in name or "sidereal" in name or "hour_angle" in name or "ascension" in name):
            continue
        return False
    return True


def check(cases):
    out = Outcome()
    real = [functions.arguments(c[0], c[1]) for c in cases]
    res = []
    for b in api.BACKENDS:
        api.backend(b)
        res.append([api.outcome(api.fn(c[0]), *a) for c, a in zip(cases, real)])
        out.call(len(cases))
    for c, m, n in zip(cases, *res):
        if m[0] != n[0] and m[1] == "OverflowError" and n[0] == "ok" and c[0] in RANGE and not all(math.isfinite(v) for v in api.values(n[1])):
            out.ok()          # outside the range of a double in either state: both report it in their backend's way
        elif m[0] != n[0]:
            out.fail(c, "%s%r: math %r, numpy %r" % (c[0], tuple(c[1]), m[1:], n[1:]))
        elif m[0] == "ok" and not same(c[0], m[1], n[1], c[1]):
            out.fail(c, "%s%r: math %r, numpy %r" % (c[0], tuple(c[1]), m[1], n[1]))
        else:
            out.ok()
    return out


def sim(cases):
    import datetime
    out = Outcome()
    for c in cases:
        w, lat, lon, step, el, t, p = c
        rows = []
        for b in api.BACKENDS:
            api.backend(b)
            rows.append(api.outcome(lambda: [list(r) for r in api.simulate.simulate_span(lat, lon, [3.0 * (i % 120) for i in range(361)], D.dt(w), D.dt(w) +
                                    datetime.timedelta(hours=20), step, el, t, p)]))
            out.call()
        if rows[0][0] == rows[1][0] == "ok" and api.close(rows[0][1], rows[1][1], absolute=1e-7):
            out.ok()
        else:
            out.fail(c, "simulate_span: math %r, numpy %r" % (rows[0][1][:1], rows[1][1][:1]))
    return out


def spaces(tier):
    th = tier == "thorough"
    cs = [[n, c] for n in functions.ALL for c in functions.cases(n, 4000 if th else 400)]
    sims = [[D.W(2016, m, 9, 1, 7), lat, lon, step, el, t, p] for m in (1, 4, 7) for lat, lon in ((52.0, 13.0), (-80.0, 100.0), (0.0, 0.0)) for step in (60, 17.5)
            for el, t, p in ((0, 288.15, 101325.0), (3000.0, 250.0, 70000.0))]
    return [Space("functions", cs, check, chunk=250), Space("simulate", sims, sim, chunk=4)]
