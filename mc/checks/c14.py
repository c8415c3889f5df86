"""Stateless exploration of thread interleavings of the real library under a controlled scheduler.  Two (three) threads make calls; every
schedule with one preemption at any reached line of library code (first, second and last time it is reached), and every schedule with
two preemptions at bytecode granularity inside the functions that touch mutable library state, is executed from a fresh and from a used library,
each in its own forked process; every thread must return what it returns alone, and no schedule may raise, hang or deadlock."""
import gc
import itertools
import locale
import os
import sys
import warnings

import numpy  # noqa: F401  (before the locks are replaced)

from .. import sched

_alloc = sched.install()
try:
    from .. import api
finally:
    sched.uninstall(_alloc)
from .. import ops, state
from ..core import Space, Outcome

PROP = "C14"
LIMIT = 6000      # schedules of one slice; on the unchanged tree never reached (plans_left_out is reported)
ASSUMPTIONS = ["preemption at line granularity everywhere, at bytecode granularity in functions that touch mutable module state; at most two (quick) or three preemptions",
               "sequentially consistent memory, as under the GIL", "locks created by library modules are replaced by cooperative ones"]
sp = ops.special
P = "solar.get_position"
CALLS = {
    "pos": ["call", P, sp(P)], "pos2": ["call", P, sp(P, None, (-33.9, 151.2))], "pos3": ["call", P, sp(P, ops.WHENS[11], (80.0, 10.0), dict(elevation=1500.0, pressure=5e4))],
    "posarr": ["call", P, ops.ARR[P]], "alt": ["call", "solar.get_altitude", sp("solar.get_altitude", ops.WHENS[14])],
    "fast": ["call", "solar.get_azimuth_fast", sp("solar.get_azimuth_fast")], "fast2": ["call", "solar.get_azimuth_fast", sp("solar.get_azimuth_fast", ops.WHENS[11], (-40.0, 100.0))],
    "altfast": ["call", "solar.get_altitude_fast", sp("solar.get_altitude_fast", ops.WHENS[9], (60.0, -3.0))],
    "rad": ["call", "radiation.get_radiation_direct", [ops.T, 30.0]], "rad2": ["call", "radiation.get_radiation_direct", [ops.WHENS[11], -5.0]],
    "rise": ["call", "util.get_sunrise_sunset_transit", sp("util.get_sunrise_sunset_transit")],
    "rise2": ["call", "util.get_sunset_time", sp("util.get_sunset_time", ops.WHENS[5], (-33.9, 151.2))],
    "clear": ["call", "util.global_irradiance_clear", sp("util.global_irradiance_clear")], "clear2": ["call", "util.diffuse_underclear", sp("util.diffuse_underclear", ops.WHENS[15], (10.0, 10.0), dict(TL=3.0))],
    "extra": ["call", "util.clear_index", [500.0, 42.2, -71.4, ops.T]], "over": ["call", "util.global_irradiance_overcast", sp("util.global_irradiance_overcast")],
    "sim": ["sim", "simulate", [52.0, 13.0, ops.T, 40, 20, 0, 288.15, 101325.0, 9]], "sim2": ["sim", "simulate", [-30.0, 100.0, ops.WHENS[11], 35, 17.5, 900.0, 250.0, 9e4, 9]],
    "jd": ["call", "solartime.get_julian_ephemeris_day", [ops.T]], "jd2": ["call", "solartime.get_delta_t", [ops.WHENS[14]]],
    "nut": ["call", "solar.get_nutation", [0.16]], "nut2": ["call", "solar.get_nutation", [-3.0]], "coef": ["call", "solar.get_heliocentric_longitude", [0.003]],
    "topo": ["call", "solar.get_topocentric_position", sp("solar.get_topocentric_position", ops.WHENS[8])],
    "rest": ["call", "rest.get_beam_broadband_irradiance", [30.0, 1013.25, 0.35, 0.0002, 1.5, 1.3, 0.1]],
    "rest2": ["call", "rest.get_broadband_direct_normal_irradiance", [70.0, 800.0, 0.2, 0.001, 5.0, 1.0, 0.6]],
    "bad": ["call", P, sp(P, ["naive", [2016, 3, 20, 15, 20]])], "press": ["call", "elevation.get_pressure_with_elevation", [1000.0]],
}
QUICK = ["pos pos", "pos pos2", "pos pos3", "pos3 posarr", "pos alt", "fast fast2", "fast altfast", "rad rad2", "rise rise2", "clear clear2", "extra over", "sim sim2", "sim pos3", "jd jd2", "nut nut2",
         "coef nut", "rest rest2", "bad pos", "topo pos", "rise posarr", "clear posarr", "sim posarr", "rest posarr"]
ROOT = sched.library_root()


def _alone(name, backend):
    api.backend(backend)
    return ops.run(CALLS[name])[0]


_exp = {}


def alone(name, backend):
    k = name, backend
    if k not in _exp:
        _exp[k] = state.forked(_alone, name, backend)
    return _exp[k]


def _prepare(start, backend):
    api.backend(backend)
    for n in start:
        ops.run(CALLS[n])


def _profile(name, start, backend, fine, only=None):
    """points a thread passes when it runs alone, and the globals that change meanwhile"""
    _prepare(start, backend)
    sched.refine(ROOT, fine)
    run = sched.Run([lambda: ops.run(CALLS[name])[0]], [], ROOT, record=True, only=only)
    run.go()
    return run.trace[0]


def _changes(name, start, backend):
    _prepare(start, backend)
    seen, changed = set(), set()
    last = [state.by_name()]

    def look():
        now = state.by_name()
        changed.update(k for k in set(now) | set(last[0]) if now.get(k) != last[0].get(k))
        last[0] = now

    def local(frame, event, arg):
        k = frame.f_code, frame.f_lineno, event == "return"
        if k not in seen and event in ("line", "return"):
            seen.add(k)
            sys.settrace(None)
            look()
            sys.settrace(glob)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    sys.settrace(glob)
    try:
        ops.run(CALLS[name])
    finally:
        sys.settrace(None)
    look()
    return changed


def _codes():
    """all code objects of the loaded library: qualified key -> (names it uses, nested keys, code object)"""
    res = {}

    def add(co):
        key = co.co_filename[len(ROOT):] + ":" + co.co_qualname
        inner = [add(c) for c in co.co_consts if hasattr(c, "co_code")]
        names, kids, _ = res.get(key, (set(), [], None))
        res[key] = (names | set(co.co_names) | set(co.co_freevars) | set(co.co_cellvars), kids + inner, co)
        return key

    def visit(f):
        while f is not None:
            co = getattr(f, "__code__", None)
            if co is not None and co.co_filename.startswith(ROOT):
                add(co)
            f = getattr(f, "__wrapped__", None)
    for n in state.modules():
        for v in list(vars(sys.modules[n]).values()):
            visit(v)
            if isinstance(v, type) and v.__module__.split(".")[0] == "pysolar":
                for m in vars(v).values():
                    visit(getattr(m, "__func__", m))
    return res


_hot = {}


def hot(names, start, backend):
    """functions that mention a global that the calls change"""
    k = tuple(names), tuple(start), backend
    if k not in _hot:
        changed = set()
        for n in names:
            changed |= state.forked(_changes, n, start, backend)
        words = {c[1] for c in changed}
        codes = _codes()
        res = {key for key, (used, kids, co) in codes.items() if used & words or key.rsplit(":", 1)[1].split(".")[0] in words}
        # closures of a decorated or nested function count with the function itself
        for key in list(res):
            todo = list(codes[key][1])
            while todo:
                x = todo.pop()
                if x not in res:
                    res.add(x)
                    todo += codes[x][1]
        vis = sched.visible({key: codes[key][2] for key in res}, words)
        _hot[k] = sorted(res), sorted(".".join(c) for c in changed), vis
    return _hot[k]


def settings():
    """what all threads of the process share besides the library"""
    return dict(filters=repr(warnings.filters), show=repr((warnings.showwarning, warnings.formatwarning)), limit=sys.getrecursionlimit(), interval=sys.getswitchinterval(),
                environment=dict(os.environ), directory=os.getcwd(), collector=(gc.isenabled(), gc.get_threshold()), locale=locale.setlocale(locale.LC_ALL),
                streams=(id(sys.stdout), id(sys.stderr)), path=list(sys.path))


def _ordinary():
    """a filter that no call would set, so that a call which sets any changes something"""
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", ".")


def _settings_changed(name, start, backend):
    """the library functions during which such a setting changes, even if it is put back"""
    _prepare(start, backend)
    _ordinary()
    seen, where, last, before = {}, set(), [settings()], [()]

    def callers(frame):
        res = []
        while frame is not None:
            co = frame.f_code
            if co.co_filename.startswith(ROOT):
                res.append(co.co_filename[len(ROOT):] + ":" + co.co_qualname)
            frame = frame.f_back
        return res

    def local(frame, event, arg):
        k = frame.f_code, frame.f_lineno, event
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3:
            sys.settrace(None)
            now, here = settings(), callers(frame)
            if now != last[0]:
                where.update(here, before[0])
            last[0], before[0] = now, here
            sys.settrace(glob)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    sys.settrace(glob)
    try:
        ops.run(CALLS[name])
    finally:
        sys.settrace(None)
    return sorted(where)


def shared(cases):
    """two preemptions at the lines of functions that change a setting of the process: [names, start, backend, first]"""
    out = Outcome()
    for c in cases:
        names, start, backend, first = c
        try:
            only = sorted({k for n in names for k in state.forked(_settings_changed, n, start, backend)})
            [alone(n, backend) for n in names]
            traces = [chosen(state.forked(_profile, n, start, backend, (), only), 1) for n in names] if only else [[], []]
        except state.Gone as e:
            out.fail(c, "%s: %s" % (names, str(e)[-300:]))
            continue
        for x in only:
            out.extra.setdefault("functions_that_change_settings", set()).add(x)
        order = [first, 1 - first]
        plans = [[]] + [[(first, p, 1 - first), (1 - first, q, first)] for p in traces[first] for q in traces[1 - first]]
        for plan in plans[:LIMIT]:
            judge(out, c, names, start, backend, plan, (), order, only)
            if out.fails:
                return out
    return out


def _schedule(names, start, backend, plan, fine, order, only=None):
    _prepare(start, backend)
    sched.refine(ROOT, fine)
    run = sched.Run([(lambda n=n: ops.run(CALLS[n])[0]) for n in names], plan, ROOT, order=order, only=only)
    _ordinary()
    before = settings()
    res = run.go()
    after = settings()
    return res, run.met, run.points, ["%s: %r, before the calls %r" % (k, after[k], before[k]) for k in after if after[k] != before[k]]


def judge(out, case, names, start, backend, plan, fine, order, only=None):
    try:
        res, met, points, left = state.forked(_schedule, names, start, backend, plan, fine, order, only, seconds=50)
    except state.Gone as e:
        out.fail(case, "schedule %r of %r from %r: %s" % (plan, names, start, str(e)[-300:]))
        return
    out.call(points)
    out.extra["schedules"] = out.extra.get("schedules", 0) + 1
    out.extra["preemptions"] = out.extra.get("preemptions", 0) + met
    for i, (n, r) in enumerate(zip(names, res)):
        if r is None or r[0] != "ok" or not state.same(r[1], alone(n, backend)):
            out.fail(case, "thread %d (%s) under schedule %r, started from %s, backend %s: %r; alone: %r" %
                     (i, n, plan, start or "fresh", backend, r, alone(n, backend)))
            return
    if left:
        out.fail(case, "the calls %r under schedule %r, started from %s, backend %s, leave the process with other %s" % (names, plan, start or "fresh", backend, left))
        return
    out.ok()


def chosen(trace, occurrences=3):
    """the first, second and last time each point is reached"""
    total = {}
    for f, w, o in trace:
        total[f, w] = o
    keep = {1: lambda o, t: o == 1, 2: lambda o, t: o in (1, t), 3: lambda o, t: o in (1, 2, t)}[occurrences]
    return [(f, w, o) for f, w, o in trace if keep(o, total[f, w])]


def one(cases):
    """all schedules with one preemption: [names, start, backend, first, part, parts, occurrences]"""
    out = Outcome()
    for c in cases:
        names, start, backend, first, part, parts, occ = c
        try:
            pts = chosen(state.forked(_profile, names[first], start, backend, ()), occ)
            [alone(n, backend) for n in names]
        except state.Gone as e:
            out.fail(c, "%s alone: %s" % (names, str(e)[-300:]))
            continue
        order = [first] + [i for i in range(len(names)) if i != first]
        for p in ([None] if part == 0 else []) + pts[part::parts]:
            judge(out, c, names, start, backend, [(first, p, order[1])] if p else [], (), order)
            if out.fails:
                return out
    return out


def several(cases):
    """all schedules with two (three) preemptions before instructions that touch mutable state: [names, start, backend, first, part, parts, bound, occurrences]"""
    out = Outcome()
    for c in cases:
        names, start, backend, first, part, parts, bound, occ = c
        try:
            fine, changed, vis = hot(names, start, backend)
            [alone(n, backend) for n in names]
            traces = [state.forked(_profile, n, start, backend, fine, fine) for n in names]
        except state.Gone as e:
            out.fail(c, "%s: %s" % (names, str(e)[-300:]))
            continue
        for x in changed:
            out.extra.setdefault("mutable_globals", set()).add(x)
        pts = [[p for p in chosen(t, occ) if p[1] in vis.get(p[0], ())] for t in traces]
        other = [i for i in range(len(names)) if i != first]
        order = [first] + other
        plans = [[]]
        if len(names) == 2:
            for i, p in enumerate(pts[first]):
                for q in pts[other[0]]:
                    plans.append([(first, p, other[0]), (other[0], q, first)])
                    if bound > 2:
                        plans += [[(first, p, other[0]), (other[0], q, first), (first, r, other[0])] for r in pts[first][i + 1:]]
        else:
            for p in pts[first]:
                for q in pts[other[0]]:
                    plans.append([(first, p, other[0]), (other[0], q, other[1])])
                    plans.append([(first, p, other[0]), (other[0], q, first)])
        out.extra["max_points"] = max([out.extra.get("max_points", 0)] + [len(p) for p in pts])
        plans = plans[part::parts]
        if len(plans) > LIMIT:
            out.extra["plans_left_out"] = out.extra.get("plans_left_out", 0) + len(plans) - LIMIT
            plans = plans[:LIMIT]
        for plan in plans:
            judge(out, c, names, start, backend, plan, fine, order, fine)
            if out.fails:
                return out
    return out


def spaces(tier):
    th = tier == "thorough"
    pairs = [q.split() for q in QUICK]
    if th:
        pairs += [list(p) for p in itertools.combinations_with_replacement(sorted(CALLS), 2) if list(p) not in pairs]
    c1, c2 = [], []
    parts = 4
    for i, names in enumerate(pairs):
        main = i < len(QUICK)
        starts = [[], ["alt", "rad", "jd"]] if th and main or i < 6 else [[]]
        for start in starts:
            for b in (["numpy", "math"] if th and main else ["numpy" if i % 3 or "posarr" in names else "math"]):
                if b == "math" and "posarr" in names:
                    continue
                for first in (0, 1):
                    c1 += [[names, start, b, first, k, parts, 3 if th and main else 1] for k in range(parts)]
    for names in ([["pos", "pos"], ["pos", "pos3"], ["nut", "nut2"], ["fast", "fast2"], ["rad", "rad2"], ["rise", "rise2"], ["sim", "sim2"], ["clear", "clear2"], ["jd", "jd2"], ["rest", "rest2"]] if not th else pairs[:len(QUICK)]):
        for start in ([[]] if not th else [[], ["alt", "rad", "jd"]]):
            for first in ((0,) if not th else (0, 1)):
                c2 += [[names, start, "math" if "posarr" not in names else "numpy", first, k, 8, 3 if names[0] == "nut" or th and names[0] == "pos" else 2, 3] for k in range(8)]
    three = [[["nut", "nut2", "nut"], [], "math", 0, k, 8, 2, 3 if th else 2] for k in range(8)]
    sh = [[names, [], "math" if "posarr" not in names else "numpy", first] for names in pairs for first in (0, 1)]
    return [Space("settings of the process", sh, shared, chunk=1), Space("one preemption", c1, one, chunk=1), Space("two preemptions", c2, several, chunk=1), Space("three threads", three, several, chunk=1)]
