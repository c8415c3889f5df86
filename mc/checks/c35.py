"""Work that crosses process boundaries: every public function pickled by reference, every error and every result through every pickle protocol and copy; every public function run in the
workers of real process pools (start method x kind of pool x backend of the parent x history before the pool starts), errors included; and a fork at every point of a simulation."""
import copy
import concurrent.futures as cf
import datetime
import itertools
import multiprocessing as mp
import os
import pickle
import warnings

from .. import domains as D, functions, state
from ..core import Space, Outcome
from .. import api

PROP = "C35"
WAYS = list(range(pickle.HIGHEST_PROTOCOL + 1)) + ["copy", "deepcopy", "twice"]
NAIVE = {"noon": [2020, 6, 21, 12], "midnight": [2020, 1, 1], "fraction": [1999, 12, 31, 23, 59, 59, 999999], "first": [1, 1, 1], "fold": [2020, 10, 25, 2, 30, 0, 0, None, 1]}
EXTRA = ["simulate.simulate_span", "simulate.datetime_range", "tzinfo_check.check_aware_dt", "tzinfo_check.NoTimeZoneInfoError"]


def travel(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    if way == "twice":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x, 0)), 5))
    return pickle.loads(pickle.dumps(x, way))


def references(cases):
    out = Outcome()
    for name, way in cases:
        f = api.fn(name)
        r = api.outcome(travel, f, way)
        out.call()
        if r[0] == "ok" and r[1] is f:
            out.ok()
        else:
            out.fail([name, way], "%s does not survive pickling or copying: %r" % (name, r[1:]))
    return out


def naive(key):
    w = NAIVE[key]
    return datetime.datetime(*w[:7], fold=w[8] if len(w) > 8 else 0)


def bad_args(name, key):
    args = functions.arguments(name, functions.cases(name, 1)[0])
    args[functions.DATED[name]] = naive(key) if key in NAIVE else None
    return args


def picture(e):
    return [type(e).__module__, type(e).__qualname__, str(e), getattr(e, "argname", None), str(getattr(e, "dt", None)), isinstance(e, ValueError)]


def errors(cases):
    """[function, which naive datetime (or none at all), way, backend]"""
    out = Outcome()
    for c in cases:
        name, key, way, b = c
        api.backend(b)
        try:
            api.fn(name)(*bad_args(name, key))
        except Exception as e:  # noqa: BLE001
            err = e
        else:
            out.fail(c, "%s accepted %s" % (name, key))
            continue
        r = api.outcome(travel, err, way)
        out.call(2)
        if r[0] == "ok" and picture(r[1]) == picture(err) and (key not in NAIVE or picture(err)[3] == "when"):
            out.ok()
        else:
            out.fail(c, "%s: the error %s does not survive: %r" % (name, picture(err), picture(r[1]) if r[0] == "ok" else r))
    return out


def results(cases):
    out = Outcome()
    for c in cases:
        name, args, way, b = c
        api.backend(b)
        r = api.outcome(api.fn(name), *functions.arguments(name, args))
        out.call()
        if r[0] != "ok":
            q = ("ok", None)
            same = True     # whether the call may raise is another property
        else:
            q = api.outcome(travel, r[1], way)
            same = q[0] == "ok" and state.same(state.plain(q[1]), state.plain(r[1]), True)
        if same:
            out.ok()
        else:
            out.fail(c, "%s: the result %r comes back as %r" % (name, r[1], q[1:]))
    return out


def rows(cases):
    """[simulation, way, backend]: rows and the list of them travel like any other result"""
    out = Outcome()
    for c in cases:
        (lat, lon, w, minutes, step), way, b = c
        api.backend(b)
        start = D.dt(w)
        end = start + datetime.timedelta(minutes=minutes)
        for get in (lambda: list(api.simulate.simulate_span(lat, lon, [float(x % 300) for x in range(361)], start, end, step)), lambda: list(api.simulate.datetime_range(start, end, step)),
                    lambda: next(iter(api.simulate.simulate_span(lat, lon, list(range(361)), start, end, step)))):
            r = api.outcome(get)
            q = api.outcome(travel, r[1], way) if r[0] == "ok" else r
            out.call(2)
            if q[0] == "ok" and state.same(state.plain(q[1]), state.plain(r[1]), True):
                out.ok()
            else:
                out.fail(c, "rows %.200r come back as %.200r" % (r[1], q[1:]))
                break
    return out


def jobs():
    """(function, arguments) for every public function, by value, with errors in between"""
    res = []
    for n in functions.ALL:
        for c in functions.cases(n, 2)[:2]:
            res.append((api.fn(n), functions.arguments(n, c)))
    for n in functions.DATED:
        res.append((api.fn(n), bad_args(n, "noon")))
        res.append((api.fn(n), bad_args(n, "none at all")))
    return res


def summary(r):
    """comparable picture of ('ok', value) or an exception"""
    if isinstance(r, BaseException):
        return picture(r)
    return ["ok", state.plain(r)]


def guarded(f, args):
    try:
        return f(*args)
    except Exception as e:  # noqa: BLE001
        return e


def same(a, b):
    def flat(x):
        if isinstance(x, list) and len(x) == 2 and isinstance(x[1], float):
            return ["number", x[1]]
        if isinstance(x, list) and len(x) == 4 and x[0] == "array" and x[2] == [] and len(x[3]) == 1:
            return flat(x[3][0])
        return [flat(y) for y in x] if isinstance(x, list) else x
    return state.same(flat(a), flat(b), tol=1e-9)


def by_backend(todo):
    """what each call gives here, with either backend (a worker started afresh uses the default one)"""
    res = []
    for b in api.BACKENDS:
        api.backend(b)
        res.append([summary(guarded(f, a)) for f, a in todo])
    return res


def pools(cases):
    """[start method, kind of pool, backend of the parent, library used before]"""
    out = Outcome()
    os.environ["PYTHONWARNINGS"] = "ignore"      # of the workers
    todo = jobs()
    want = by_backend(todo)
    for c in cases:
        method, kind, b, used = c
        api.backend(b)
        if used:
            for f, a in todo[:4]:
                guarded(f, a)
        ctx = mp.get_context(method)
        got = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "executor":
                ex = cf.ProcessPoolExecutor(1, mp_context=ctx)
                try:
                    for ft in [ex.submit(f, *a) for f, a in todo]:
                        e = ft.exception(timeout=60)
                        got.append(summary(e if e is not None else ft.result()))
                    ex.shutdown()
                except cf.TimeoutError:
                    got.append(["no answer from the pool"])
                    for p in list((ex._processes or {}).values()):
                        p.kill()
            else:
                pool = ctx.Pool(1)
                try:
                    hs = [pool.apply_async(f, a) for f, a in todo]
                    for h in hs:
                        try:
                            got.append(summary(h.get(30)))
                        except mp.TimeoutError:
                            got.append(["no answer from the pool"])
                            break
                        except Exception as e:  # noqa: BLE001
                            got.append(summary(e))
                finally:
                    # Pool.terminate can deadlock when it ends a worker that holds a lock of the pool
                    if got and got[-1] == ["no answer from the pool"]:
                        for p in list(pool._pool):
                            p.kill()
                    else:
                        pool.close()
                        pool.join()
        out.call(len(got))
        for i, g in enumerate(got):
            if same(g, want[0][i]) or same(g, want[1][i]):
                out.ok()
            else:
                out.fail(c, "%s%r in a worker: %r, here %r" % (todo[i][0].__name__, tuple(todo[i][1]), g, want[1][i]))
                break
    return out


def _rest(it, k):
    return [state.plain(list(r)) for r in it]


def forks(cases):
    """[simulation, rows taken before the fork, backend]: the child and the parent both see the remaining rows"""
    out = Outcome()
    for c in cases:
        (lat, lon, w, minutes, step), k, b = c
        api.backend(b)
        start = D.dt(w)

        def sim():
            return api.simulate.simulate_span(lat, lon, [float(x % 300) for x in range(361)], start, start + datetime.timedelta(minutes=minutes), step)
        whole = api.outcome(lambda: [state.plain(list(r)) for r in sim()])
        it = sim()
        try:
            for _ in itertools.islice(it, k):
                pass
            child = state.forked(_rest, it, k)
            here = _rest(it, k)
        except Exception as e:  # noqa: BLE001
            out.fail(c, "%s: %s" % (type(e).__name__, e))
            continue
        out.call(3)
        if whole[0] == "ok" and state.same(child, whole[1][k:]) and state.same(here, whole[1][k:]):
            out.ok()
        else:
            out.fail(c, "after %d rows a fork sees %d rows, the parent %d, of %r" % (k, len(child), len(here), len(whole[1])))
    return out


def spaces(tier):
    th = tier == "thorough"
    ref = [[n, w] for n in list(functions.ALL) + EXTRA for w in WAYS]
    err = [[n, k, w, b] for n in functions.DATED for k in list(NAIVE) + ["none at all"] for w in WAYS for b in api.BACKENDS]
    res = [[n, c, w, b] for n in functions.ALL for c in functions.some(n, 80 if th else 8, 60 if th else 6) for w in (WAYS if th else [0, 2, 5, "deepcopy"]) for b in api.BACKENDS]
    pool = [[m, k, b, u] for m in ("fork", "spawn", "forkserver") for k in ("executor", "pool") for b in (api.BACKENDS if th else ["math"]) for u in ((0, 1) if th else (1,))]
    sims = [[52.0, 13.0, D.W(2016, 3, 20, 8), 240, 30], [-30.0, 151.0, D.W(2016, 12, 31, 20, 0, 0, 0, 36000), 300, 37.5]]
    fork = [[s, k, b] for s in sims for k in range(9) for b in api.BACKENDS]
    return [Space("references", ref, references), Space("errors", err, errors), Space("results", res, results), Space("rows", [[s, w, b] for s in sims for w in WAYS for b in api.BACKENDS], rows), Space("forks", fork, forks, chunk=6),
            Space("pools", pool, pools, chunk=1, pool=False)]
