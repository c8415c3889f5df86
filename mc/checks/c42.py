"""What the library keeps between calls stays bounded.  For every public function, backend and argument, the complete history of N calls that differ in that argument (or in all of them) is
executed from a pristine library and everything reachable from the modules of the package is counted on the way; a history whose last stretch still adds to it with (nearly) every call is
extended to 16 and 64 times its length, and fails when it has not stopped by then.  The same for failing calls, backend switches, simulations (finished and abandoned) and guarded functions."""
import contextvars
import gc
import itertools
import sys
import threading
import types
import warnings

from .. import api, domains as D, functions, ops, state
from ..core import Space, Outcome

PROP = "C42"
ASSUMPTIONS = ["growth is counted in objects reachable from module globals, function defaults, closures and caches of the package, and in objects alive altogether",
               "a cache with a fixed limit of a few thousand entries counts as bounded"]
OUTSIDE = (types.ModuleType, types.FrameType)


def kept():
    """number of objects and entries reachable from the library's modules, other modules left out"""
    seen, n = set(), 0
    todo = [vars(sys.modules[m]) for m in state.modules()]
    keep = [todo]
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, OUTSIDE) or (isinstance(x, type) and not str(x.__module__).startswith("pysolar")) or \
                (isinstance(x, types.FunctionType) and not str(x.__module__).startswith("pysolar")) or (isinstance(x, dict) and x.get("__name__") and x.get("__spec__") is not None and not str(x["__name__"]).startswith("pysolar")):
            continue
        seen.add(id(x))
        n += 1
        if isinstance(x, (str, bytes, bytearray)) or hasattr(x, "nbytes"):
            n += sys.getsizeof(x) // 64
        elif isinstance(x, (dict, list, tuple, set)):
            n += len(x)
        r = gc.get_referents(x)
        keep.append(r)
        todo += r
    return n


def vary(name, which, k):
    """k-th argument vector of a function, different from all others in the parameters `which`"""
    base = list(functions.cases(name, 1)[0])
    pos = functions.DATED.get(name)
    for i in which:
        a = base[i]
        if i == pos:
            base[i] = D.W(2001 + k % 40, 1 + k // 40 % 12, 1 + k // 480 % 28, k % 24, k % 60, k % 59, k, k * 37 % 86399 - 43199)
        elif isinstance(a, list):
            base[i] = [a[0]] + [x + k * 1e-9 for x in a[1:]] if a and isinstance(a[0], str) else [[[x + k * 1e-9 for x in t] for t in row] for row in a]
        elif isinstance(a, str):
            pass
        else:
            base[i] = a + (k + 1) * (1e-7 if a else 1e-9)
    return base


def _grow(b, kind, name, which, lengths):
    api.backend(b)
    counts, alive = [], []
    n = 0
    with warnings.catch_warnings():
        warnings.simplefilter("default" if kind == "loud" else "ignore")
        if kind == "loud":
            warnings.showwarning = lambda *a, **k: None
        for upto in lengths:
            while n < upto:
                if kind in ("call", "loud"):
                    ops.run(["call", name, vary(name, which, n)])
                elif kind == "thread":
                    t = threading.Thread(target=ops.run, args=(["call", name, vary(name, which, n)],), name="t%d" % n)
                    t.start()
                    t.join()
                    del t
                elif kind == "context":
                    contextvars.Context().run(ops.run, ["call", name, vary(name, which, n)])
                elif kind == "late":
                    args = vary(name, which, n)
                    args[functions.DATED[name]] = D.W(2040 + n % 900, 1 + n % 12, 1, 0, 0, 0, n, n * 41 % 86399 - 43199)
                    ops.run(["call", name, args])
                elif kind == "fail":
                    args = vary(name, which, n)
                    pos = functions.DATED.get(name)
                    args[which[0]] = ["naive", args[pos][:7]] if which[0] == pos else "text %d" % n
                    ops.run(["call", name, args])
                elif kind == "switch":
                    api.backend(("math", "numpy")[n % 2])
                elif kind == "sim":
                    ops.run(["sim", "simulate", [50 + n * 1e-6, 13.0, D.W(2016, 3, 20, 8), 180, 60, n * 1e-3, 288.15, 101325.0, which[0]]])
                elif kind == "guard":
                    f = api.tzinfo_check.check_aware_dt("when")(lambda when, n=n: n)
                    f(D.dt(D.W(2016, 1, 1 + n % 28)))
                n += 1
            gc.collect()
            counts.append(kept())
            alive.append(len(gc.get_objects()) if gc.get_freeze_count() == 0 else len(gc.get_objects()) + gc.get_freeze_count())
    return counts, alive


def growth(cases):
    """[backend, kind, function, parameters varied, number of calls]"""
    out = Outcome()
    for c in cases:
        b, kind, name, which, n = c
        try:
            bad = None
            for size in (n, 16 * n, 64 * n):
                lengths = [size // 2, 3 * size // 4, size]
                counts, alive = state.forked(_grow, b, kind, name, which, lengths, seconds=200)
                out.call(size)
                bad = None
                for what, x in (("kept in the modules", counts), ("alive", alive)):
                    d1, d2 = x[1] - x[0], x[2] - x[1]
                    if d1 > size // 4 * 0.4 and d2 > size // 4 * 0.4:
                        bad = "%d calls that differ: objects %s %r after %r calls" % (size, what, x, lengths)
                if not bad:
                    break
            if bad:
                out.fail(c, "%s %s (%s): %s" % (kind, name, b, bad))
            else:
                out.ok()
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
    return out


def spaces(tier):
    th = tier == "thorough"
    both = ["numpy", "math"]
    n = 1600 if th else 320
    one = [[b, "call", name, [i], n] for name in functions.ALL for b in (both if th else both[:1]) for i, a in enumerate(functions.cases(name, 1)[0]) if not isinstance(a, str)]
    allp = [[b, "call", name, list(range(len(functions.cases(name, 1)[0]))), n] for name in functions.ALL for b in both]
    late = [[b, k, name, [functions.DATED[name]], n] for name in api.TIMED for b in (both if th else both[:1]) for k in ("late", "loud")]
    fail = [[b, "fail", name, [i] + [j for j in range(len(functions.cases(name, 1)[0])) if j != i], n] for name in functions.ALL for b in (both if th else both[:1])
            for i in ([functions.DATED[name], 0] if name in functions.DATED else [0])]
    thr = [[b, k, name, list(range(len(functions.cases(name, 1)[0]))), n] for name in functions.ALL for b in (both if th else both[:1]) for k in ("thread", "context")]
    other = [["numpy", "switch", "switch", [0], n]] + [[b, "sim", "simulate", [k], n // 4] for b in both for k in (1, 2, 9)] + [["numpy", "guard", "guard", [0], n]]
    return [Space("other histories", other, growth, chunk=1), Space("all arguments differ", allp, growth, chunk=4), Space("one argument differs", one, growth, chunk=6), Space("threads and contexts", thr, growth, chunk=4), Space("failing calls", fail, growth, chunk=4),
            Space("warning calls", late, growth, chunk=4)]
