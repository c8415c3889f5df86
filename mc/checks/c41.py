"""Calls abandoned in the middle, and calls made from within calls.  Fault points: every line, function start and return that an operation passes is, in turn, the place where an exception from
outside (KeyboardInterrupt, a time-out, MemoryError) ends it, each time from a pristine library; afterwards the same operation, its variants and a battery of other calls must give what they
give in a fresh process.  The same with every depth of remaining stack, with warnings turned into errors, and with backend switches as the operation.  Nesting: every timed function, asked with
a time zone (or horizon, nutation, warning hook) of the user's that itself calls the library at each consultation."""
import datetime
import sys
import warnings

from .. import api, domains as D, functions, interrupt, ops, state, zones
from ..core import Space, Outcome

PROP = "C41"
ASSUMPTIONS = ["interruptions are delivered between lines, at function starts and at returns of library code, not inside with headers, finally blocks and exception handlers",
               "each of the first two and the last passage of a place stands for the others"]
PROBES = [["call", "solar.get_position", [42.2, -71.4, D.W(2016, 12, 31, 23, 59, 59, 999999, -3600), 10.0, 280.0, 90000.0]], ["call", "solar.get_azimuth_fast", [-33.0, 151.0, D.W(2012, 2, 29, 3, 4, 5)]],
          ["call", "util.get_sunrise_sunset_transit", [69.0, 20.0, D.W(2016, 3, 20, 12)]], ["call", "radiation.get_radiation_direct", [D.W(2015, 1, 1), 20.0]],
          ["call", "solar.get_incidence_angle", [60.0, 60.0, 0.0, 180.0]], ["call", "rest.get_broadband_direct_normal_irradiance", [30.0, 1013.25, 0.35, 0.0002, 1.5, 1.3, 0.1]],
          ["call", "util.global_irradiance_clear", [42.2, -71.4, D.W(2016, 6, 30, 20), 365, 2.0, 1.0, 0.0, 288.15, 101325.0]], ["call", "elevation.get_pressure_with_elevation", functions.cases("elevation.get_pressure_with_elevation", 1)[0]],
          ["call", "solar.get_altitude_fast", ["x", 1.0, D.W(2012, 2, 29, 3, 4, 5)]], ["call", "solar.get_nutation", [0.1]], ["sim", "simulate", [52.0, 13.0, D.W(2016, 3, 20, 8), 240, 60, 0, 288.15, 101325.0, 3]],
          ["call", "solartime.get_leap_seconds", [D.W(2045, 6, 21, 12)]]]
TYPED = [["call", "solar.get_position", ops.ARR["solar.get_position"]], ["call", "solar.get_altitude_fast", ops.ARR["solar.get_altitude_fast"]], ["call", "radiation.get_radiation_direct", ops.ARR["radiation.get_radiation_direct"]]]


def _battery(b, hist):
    return [ops.run_loud(h)[0] for h in hist]


def _fresh(b, op):
    api.backend(b)
    return ops.run_loud(op)[0]


_known = {}


def fresh(b, op):
    k = b, repr(op)
    if k not in _known:
        _known[k] = state.forked(_fresh, b, op)
    return _known[k]


def variants(op):
    """calls that a half-finished `op` is most likely to disturb: the same one, and the same function with other arguments"""
    if op[0] != "call":
        return [op]
    fam = ops.family(op[1])
    pos = functions.DATED.get(op[1])
    others = [o for o in fam if o != op and o[0] == "call"]
    return [op] + others[:1] + others[len(others) // 2:len(others) // 2 + 1] + others[-1:] if pos is not None or others else [op]


def after(op, b):
    return variants(op) + PROBES


def _places(b, op, n):
    api.backend(b)
    return interrupt.places(lambda: ops.run_loud(op), n)


def _abandon(b, op, place, occ, kind, hist):
    api.backend(b)
    t = interrupt.Tracer(tuple(place), occ, kind)
    r = interrupt.traced(t, lambda: ops.run_loud(op)[0])
    first = ["dropped" if t.dropped and r[0] == "ok" else r[0], type(r[1]).__name__ if r[0] == "raise" else r[1]]
    dig, opaque = state.canonical()
    if not opaque and (b, dig) in _good:
        return t.fired, first, None, None
    # the same function first, then the battery
    return t.fired, first, _battery(b, hist), None if opaque else (b, dig)


_good = set()  # library states in which the whole battery has given the right results: a run that ends in one of them need not repeat it


def same(a, b, types_too=True):
    return state.same(a, b, types_too)


def judge(out, case, what, b, op, hist, first, res, kind):
    """first: outcome of the abandoned call itself"""
    if first is not None:
        if first[0] == "raise" and first[1] not in (interrupt.KINDS[kind].__name__,):
            out.fail(case, "%s: ended with %r instead" % (what, first[1]))
            return False
        if first[0] != "raise" and not same(first[1], fresh(b, op)) and not (kind != "interrupt" and first[1][0] == "raise" and interrupt.KINDS[kind].__name__ in repr(first[1])):
            out.fail(case, "%s: the call itself gives %r, uninterrupted %r" % (what, first[1], fresh(b, op)))
            return False
        if kind == "interrupt" and first[0] == "ok":
            out.fail(case, "%s: the interruption is swallowed" % what)
            return False
    for h, r in zip(hist, res or ()):
        e = fresh(b, h)
        if not same(r, e):
            out.fail(case, "%s: then %r gives %r, in a fresh process %r" % (what, h, r, e))
            return False
    out.ok()
    return True


def abandoned(cases):
    """[backend, operation, kind of exception, passages per place]"""
    out = Outcome()
    for c in cases:
        b, op, kind, n = c
        hist = after(op, b)
        try:
            pl = state.forked(_places, b, op, n)
            merged = 0
            _good.clear()   # the variants differ from operation to operation
            for place, occ in pl:
                fired, first, res, dig = state.forked(_abandon, b, op, place, occ, kind, hist)
                out.call(1 + len(res or ()))
                merged += res is None
                if not judge(out, [b, op, kind, [list(place), occ]], "%r (backend %s) ended by %s at %s line %d (%s in %s, passage %d)" % ((op, b, interrupt.KINDS[kind].__name__) + tuple(place) + (occ,)), b, op, hist,
                             first if fired else None, res, kind):
                    break
                if dig:
                    _good.add(dig)
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
        else:
            out.extra["fault_points"] = out.extra.get("fault_points", 0) + len(pl)
            out.extra["merged_by_state"] = out.extra.get("merged_by_state", 0) + merged
    return out


def _switch(b0, b1, place, occ, kind):
    api.backend(b0)
    t = interrupt.Tracer(tuple(place) if place else None, occ, kind)
    r = interrupt.traced(t, lambda: api.backend(b1))
    counts = [(k, n) for k, n in t.count.items()]
    between = _battery(b1, PROBES)
    api.backend(b1)
    return t.fired, r[0], type(r[1]).__name__, between, _battery(b1, PROBES + TYPED), counts


def switches(cases):
    """[backend before, backend asked for, kind of exception]"""
    out = Outcome()
    for c in cases:
        b0, b1, kind = c
        try:
            pl = [(k, i) for k, n in state.forked(_switch, b0, b1, None, 0, kind)[5] for i in range(1, n + 1)]
            for place, occ in pl:
                fired, r, exc, between, res, _ = state.forked(_switch, b0, b1, place, occ, kind)
                what = "switch from %s to %s ended by %s at %s line %d (%s in %s, passage %d)" % ((b0, b1, interrupt.KINDS[kind].__name__) + tuple(place) + (occ,))
                out.call(2 + 2 * len(PROBES))
                bad = None
                if fired and r == "ok" and kind == "interrupt":
                    bad = "the interruption is swallowed"
                for h, x in zip(PROBES, between):
                    if not (same(x, fresh(b1, h), False) or same(x, fresh(b0, h), False)):
                        bad = bad or "then %r gives %r, expected %r" % (h, x, fresh(b1, h))
                for h, x in zip(PROBES + TYPED, res):
                    if not same(x, fresh(b1, h)):
                        bad = bad or "after repeating it %r gives %r, in a fresh process %r" % (h, x, fresh(b1, h))
                if bad:
                    out.fail(c, what + ": " + bad)
                    break
                out.ok()
            out.extra["fault_points"] = out.extra.get("fault_points", 0) + len(pl)
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
    return out


def _shallow(b, op, room, hist):
    api.backend(b)
    keep = sys.getrecursionlimit()
    d, f = 0, sys._getframe()
    while f is not None:
        d, f = d + 1, f.f_back
    try:
        sys.setrecursionlimit(d + room)
        try:
            first = ["ok", ops.run_loud(op)[0]]
        finally:
            sys.setrecursionlimit(keep)
    except RecursionError:
        first = ["raise", "RecursionError"]
    dig, opaque = state.canonical()
    if not opaque and (b, dig) in _good:
        return first, (), None
    return first, _battery(b, hist), None if opaque else (b, dig)


def shallow(cases):
    """[backend, operation, largest number of stack frames left]"""
    out = Outcome()
    for c in cases:
        b, op, most = c
        hist = after(op, b)
        try:
            ok = 0
            _good.clear()
            for room in range(4, most):
                first, res, dig = state.forked(_shallow, b, op, room, hist)
                out.call(1 + len(res))
                if first[0] == "ok" and first[1][0] == "raise":     # numpy turns some of them into other errors
                    first = ["raise", "RecursionError"]
                if first[0] == "ok" and not same(first[1], fresh(b, op)):
                    out.fail([b, op, room], "with %d stack frames left: %r, otherwise %r" % (room, first[1], fresh(b, op)))
                    break
                bad = next(("with %d stack frames left, then %r: %r, in a fresh process %r" % (room, h, x, fresh(b, h)) for h, x in zip(hist, res) if not same(x, fresh(b, h))), None)
                if bad:
                    out.fail([b, op, room], "%r %s" % (op, bad))
                    break
                out.ok()
                if dig:
                    _good.add(dig)
                ok += first[0] == "ok"
                if ok > 3:
                    break
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
    return out


def _strict(b, op, hist):
    api.backend(b)
    with warnings.catch_warnings():
        warnings.simplefilter("error", UserWarning)
        first = ops.run(op)[0]
        second = ops.run(op)[0]
    return first, second, _battery(b, hist)


def strict(cases):
    """[backend, operation]: warnings are errors during the operation (twice), not afterwards"""
    out = Outcome()
    for c in cases:
        b, op = c
        hist = after(op, b)
        try:
            e = fresh(b, op)
            first, second, res = state.forked(_strict, b, op, hist)
            out.call(2 + len(hist))
            warned = len(e[-1]) > 1
            for x in (first, second):
                if warned and not (x[0] == "raise" and "Warning" in repr(x)):
                    out.fail(c, "%r warns (%r), but with warnings as errors gives %r" % (op, e[-1], x))
                    break
                if not warned and not same(x, e[:-1]):
                    out.fail(c, "%r with warnings as errors: %r, otherwise %r" % (op, x, e))
                    break
            else:
                judge(out, c, "%r with warnings as errors" % (op,), b, op, hist, None, res, None)
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
    return out


# ---- nesting ----------------------------------------------------------------------------------------------------------
class Busy:
    """calls the library whenever consulted (not recursively) and notes wrong answers"""

    def __init__(self, inner, want):
        self.inner, self.want, self.depth, self.bad, self.n = inner, want, 0, None, 0

    def __call__(self):
        if self.depth:
            return
        self.depth += 1
        self.n += 1
        try:
            for op, want in zip(self.inner, self.want):
                r = ops.run_loud(op)[0]
                if not same(r, want):
                    self.bad = self.bad or "inner %r gives %r, on its own %r" % (op, r, want)
        finally:
            self.depth -= 1


class Zone(datetime.tzinfo):
    busy = None

    def __init__(self, minutes=0):
        self.minutes = minutes

    def consulted(self):
        if Zone.busy is not None:
            Zone.busy()

    def utcoffset(self, d):
        self.consulted()
        return datetime.timedelta(minutes=self.minutes)

    def dst(self, d):
        self.consulted()
        return datetime.timedelta(0)

    def tzname(self, d):
        self.consulted()
        return "zone"

    def __reduce__(self):
        return Zone, (self.minutes,)


class Horizon:
    def __getitem__(self, i):
        Zone.consulted(None)
        return 3.0 * (i % 120)

    def __len__(self):
        return 361


class Nutation(dict):
    def __getitem__(self, k):
        Zone.consulted(None)
        return dict.__getitem__(self, k)


def _nested(b, how, name, inner, want):
    api.backend(b)
    Zone.busy = None
    zone = Zone(how[1] if len(how) > 1 else 0)
    base = functions.cases(name, 1)[0] if name != "simulate" else None

    def call():
        if how[0] == "horizon":
            t = datetime.datetime(2016, 3, 20, 8, tzinfo=datetime.timezone.utc)
            return [list(x) for x in api.simulate.simulate_span(52.0, 13.0, Horizon(), t, t + datetime.timedelta(minutes=240), 60)]
        if how[0] == "nutation":
            args = [Nutation(longitude=a[1], obliquity=a[2]) if isinstance(a, list) and a[0] == "nut" else a for a in base]
            return api.fn(name)(*args)
        pos = functions.DATED.get(name)
        if how[0] == "hook":
            return api.fn(name)(*[D.dt(D.W(2045, 6, 21, 12)) if i == pos else a for i, a in enumerate(base)])
        if name == "simulate":
            t = datetime.datetime(2016, 3, 20, 8, tzinfo=zone)
            return [list(x) for x in api.simulate.simulate_span(52.0, 13.0, [3.0 * (i % 120) for i in range(361)], t, t + datetime.timedelta(minutes=240), 60)]
        w = base[pos]
        t = datetime.datetime(*w[:7], tzinfo=zone)
        return api.fn(name)(*[t if i == pos else a for i, a in enumerate(base)])

    def plain(r):
        return [r[0], state.plain(r[1])]
    alone = plain(api.outcome(call))
    busy = Busy(inner, want)
    if how[0] == "hook":
        keep = warnings.showwarning
        with warnings.catch_warnings():
            warnings.simplefilter("always")
            warnings.showwarning = lambda *a, **k: busy()
            try:
                got = plain(api.outcome(call))
            finally:
                warnings.showwarning = keep
    else:
        Zone.busy = busy
        try:
            got = plain(api.outcome(call))
        finally:
            Zone.busy = None
    return alone, got, busy.bad, busy.n


def nested(cases):
    """[backend, [what consults, ...], outer function, inner operations]"""
    out = Outcome()
    for c in cases:
        b, how, name, inner = c
        try:
            want = [fresh(b, o) for o in inner]
            alone, got, bad, n = state.forked(_nested, b, how, name, inner, want)
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
            continue
        out.call(1 + n * len(inner))
        if not bad and not same(got, alone):
            bad = "%s gives %r with calls nested in it, %r without" % (name, got, alone)
        if bad:
            out.fail(c, bad)
        else:
            out.ok()
            out.extra["nested_calls"] = out.extra.get("nested_calls", 0) + n * len(inner)
    return out


def spaces(tier):
    th = tier == "thorough"
    both = ["numpy", "math"]
    late = D.W(2045, 6, 21, 12)
    calls = [["call", n, functions.cases(n, 1)[0]] for n in functions.ALL]
    sims = [ops.SIMS[0][:2] + [ops.SIMS[0][2][:8] + [2]]]
    lates = [["call", n, ops.special(n, late)] for n in api.TIMED]
    arrays = [["call", n, ops.ARR[n]] for n in ops.ARR]
    sw = [[x, y, k] for x in both for y in both for k in interrupt.KINDS]
    ab = [[b, o, "interrupt", 2 if th else 1] for o in calls + sims + [["call", "solartime.get_leap_seconds", [late]]] for b in both]
    ab += [["numpy", o, k, 1] for o in calls + sims for k in ("timeout", "memory")] if th else [["numpy", o, "timeout", 1] for o in calls if o[1] not in api.TIMED]
    ab += [["numpy", o, "interrupt", 1] for o in arrays]
    if th:
        ab += [["numpy", o, "interrupt", 1] for o in lates]
        ab += [[b, ["call", n, c], "interrupt", 1] for n in functions.ALL for c in functions.cases(n, 3)[1:] for b in both]
    # long ones first, so that the workers finish together
    ab.sort(key=lambda c: c[1][0] != "sim" and c[1][1] not in api.TIMED)
    sh = [[b, o, 40] for o in calls + sims for b in (both if th else both[:1])]
    st = [[b, o] for o in lates + calls + [["call", "elevation.get_pressure_with_elevation", [12000.0] + functions.cases("elevation.get_pressure_with_elevation", 1)[0][1:]]] for b in both]
    inner = [[o] for o in PROBES[:4] + [PROBES[9], PROBES[10]]]
    if th:
        inner += [[["call", n, ops.special(n)]] for n in ops.WIDE]
    timed = list(api.TIMED) + ["simulate"]
    ne = [[b, ["zone", m], n, i] for n in timed for i in inner + [[["call", n, ops.special(n, D.W(2012, 2, 29, 3, 4, 5))]] if n in api.TIMED else [sims[0]]] for b in both for m in ((0, -300) if th else (90,))]
    ne += [[b, [h], n, i] for h, ns in (("horizon", ["simulate"]), ("nutation", ["solar.get_apparent_sidereal_time", "solar.get_apparent_sun_longitude", "solar.get_true_ecliptic_obliquity"]), ("hook", list(api.TIMED)))
           for n in ns for i in inner for b in both]
    return [Space("interrupted switches", sw, switches, chunk=1), Space("warnings as errors", st, strict, chunk=4), Space("nested calls", ne, nested, chunk=8),
            Space("abandoned calls", ab, abandoned, chunk=1), Space("shallow stacks", sh, shallow, chunk=1)]
