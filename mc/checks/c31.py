"""Every function signature up to three (thorough: four) parameters - positional-only, ordinary and keyword-only, with and without defaults, with and without *args and **kw - is built,
guarded for every one or two of its parameters and called in every shape (number of positional arguments, set of keywords, one too many, one unknown) with aware, naive, array and
foreign values in the guarded parameters; the unguarded function is the oracle."""
import datetime
import inspect
import itertools

import numpy as np

from .. import domains as D
from ..core import Space, Outcome
from .. import api

PROP = "C31"
UTC = datetime.timezone.utc


class NoOffset(datetime.tzinfo):
    def utcoffset(self, d):
        return datetime.timedelta(hours=-3, minutes=-30, seconds=-52)

    def dst(self, d):
        return None

    def tzname(self, d):
        return "X"


class Falsy(NoOffset):
    def __bool__(self):
        return False


class Sub(datetime.datetime):
    pass


AWARE = [datetime.datetime(2016, 12, 19, 23, tzinfo=UTC), datetime.datetime(2016, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(seconds=-3))), datetime.datetime(1900, 1, 1, tzinfo=NoOffset()),
         Sub(2020, 2, 2, tzinfo=UTC), datetime.datetime(1970, 1, 1, tzinfo=Falsy())]
NAIVE = [datetime.datetime(2016, 12, 19, 23), Sub(2020, 2, 2), datetime.datetime.max, datetime.datetime(2021, 3, 28, 2, 30, fold=1)]
ARRAYS = [np.array(["2016-12-19T23:00"], dtype="datetime64[m]"), np.array([], dtype="datetime64[us]"), np.array([NAIVE[0], AWARE[0]], dtype=object), np.array("2016-12-19", dtype="datetime64[D]")]
FOREIGN = ["2016-12-19", 5, None, 2.5, datetime.date(2016, 1, 1)]
NAMES = "abcd"


class Boom(Exception):
    pass


def build(sig, raises):
    """sig: (list of (kind, has default), star args, star kwargs) -> a fresh function that records its calls"""
    params, va, vk = sig
    parts, seen = [], []
    ks = [k for k, _ in params]
    starred = False
    for i, (k, d) in enumerate(params):
        if k == "K" and not starred:
            parts.append("*args" if va else "*")
            starred = True
        parts.append(NAMES[i] + ("=D[%d]" % i if d else ""))
        if k == "P" and (i + 1 == len(params) or ks[i + 1] != "P"):
            parts.append("/")
    if va and not starred:
        parts.append("*args")
    if vk:
        parts.append("**kw")
    used = "(" + "".join(NAMES[i] + "," for i in range(len(params))) + ("args," if va else "") + ("tuple(sorted(kw.items())),"if vk else "") + ")"
    src = "def target(%s):\n '''documentation of target'''\n LOG.append(1)\n%s return ('result', %s)\n" % (", ".join(parts), " raise Boom('x')\n" if raises else "", used)
    ns = dict(D=[("default", i) for i in range(len(params))], LOG=[], Boom=Boom)
    exec(src, ns)
    f = ns["target"]
    f.attribute = 17
    return f, ns["LOG"]


def signatures(n):
    res = []
    for kinds in itertools.product("PNK", repeat=n):
        if list(kinds) != sorted(kinds, key="PNK".index):
            continue
        for defs in itertools.product((False, True), repeat=n):
            pos = [d for k, d in zip(kinds, defs) if k != "K"]
            if pos != sorted(pos):
                continue
            for va in (False, True):
                for vk in (False, True):
                    res.append([[list(x) for x in zip(kinds, defs)], va, vk])
    return res


def calls(sig):
    """every shape: (number of positional arguments, keyword names)"""
    params, va, vk = sig
    n = len(params)
    npos = sum(k != "K" for k, _ in params)
    res = []
    posonly = [NAMES[i] for i in range(n) if params[i][0] == "P"]
    for p in range(0, npos + 2):
        names = [x for x in NAMES[:n] if not (vk and x in posonly)] + ["unknown"]
        for mask in range(1 << len(names)):
            res.append((p, [x for i, x in enumerate(names) if mask >> i & 1]))
    return res


def value(kind, i):
    values = {"aware": AWARE, "naive": NAIVE, "array": ARRAYS, "foreign": FOREIGN}[kind]
    return values[i % len(values)]


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and not isinstance(a, np.ndarray) and a == b)


def run(f, log, args, kw):
    del log[:]
    r = api.outcome(f, *args, **kw)
    return r, len(log)


def check(cases):
    """[signature, guarded names, kind of value in the guarded parameters, does the body raise]"""
    out = Outcome()
    T = api.tzinfo_check
    for c in cases:
        sig, guarded, kinds, raises = c
        plain, plog = build(sig, raises)
        inner, ilog = build(sig, raises)
        r = api.outcome(lambda: T.check_aware_dt(*guarded)(inner))
        if r[0] != "ok":
            out.fail(c, "decorating raised %r" % (r[1:],))
            continue
        g = r[1]
        if g.__name__ != "target" or g.__doc__ != plain.__doc__ or inspect.signature(g) != inspect.signature(inner) or getattr(g, "attribute", None) != 17:
            out.fail(c, "name, documentation, signature or attributes changed: %r" % ((g.__name__, g.__doc__, str(inspect.signature(g))),))
            continue
        params, va, vk = sig
        n = len(params)
        posn = [NAMES[i] for i in range(n) if params[i][0] != "K"]
        bad = None
        cnt = 0
        for npos, names in calls(sig):
            # a value per slot; guarded parameters get the kinds of the case in turn
            what, given = {}, {}
            for j, x in enumerate(guarded):
                what[x] = kinds[j % len(kinds)]
            def val(x, i):
                return value(what[x], i + npos) if x in what else ("value", x)
            args = [val(posn[i], i) if i < len(posn) else ("extra", i) for i in range(npos)]
            kw = {x: val(x, 7) for x in names}
            for i in range(min(npos, len(posn))):
                given[posn[i]] = args[i]
            for x in names:
                if x in NAMES[:n]:
                    given.setdefault(x, kw[x])
            ref, _ = run(plain, plog, args, kw)
            got, ran = run(g, ilog, args, kw)
            cnt += 2
            binds = not (ref[0] == "raise" and ref[1] == "TypeError")
            naive = [x for x in guarded if x in given and what[x] == "naive"]
            foreign = [x for x in guarded if x in given and what[x] == "foreign"]
            if naive or foreign:
                ok = False
                if got[0] == "raise" and not ran:
                    ok = got[1] == "NoTimeZoneInfoError" and any("'%s'" % x in got[2] and str(given[x]) in got[2] for x in naive) or \
                        got[1] == "ValueError" and any("'%s'" % x in got[2] for x in foreign) or not binds and got[1] == "TypeError"
                if not ok:
                    bad = "with %d positional and %r: %r, body ran %d times; naive %r, not datetimes %r" % (npos, names, got, ran, naive, foreign)
            elif ref[0] == "ok":
                if got[0] != "ok" or not same(got[1], ref[1]) or ran != 1:
                    bad = "with %d positional and %r: %r, unguarded %r" % (npos, names, got, ref)
            elif got[:2] != ref[:2] or (binds and got != ref) or ran != (1 if binds else 0):
                bad = "with %d positional and %r: %r, unguarded %r" % (npos, names, got, ref)
            if bad:
                break
        out.call(cnt)
        if bad:
            out.fail(c, bad)
        else:
            out.ok(cnt // 2)
    return out


def wide(cases):
    """[number of parameters, how many of them keyword-only, guarded places, naive places]: all ways to split the arguments into positional and named ones"""
    out = Outcome()
    T = api.tzinfo_check
    for n, ko, guarded, naive in cases:
        names = ["p%d" % i if i % 3 else "param_%c" % (97 + i % 26) + "_" * (i // 26) for i in range(n)]
        log = []
        ns = dict(LOG=log)
        exec("def target(%s):\n LOG.append(1)\n return (%s,)\n" % (", ".join(names[:n - ko] + (["*"] + names[n - ko:] if ko else [])), ", ".join(names)), ns)
        f = T.check_aware_dt(*[names[i] for i in guarded])(ns["target"])
        values = [AWARE[i % 2] if i % 3 == 1 else ("value", i) for i in range(n)]
        for i in guarded:
            values[i] = NAIVE[i % 2] if i in naive else AWARE[i % len(AWARE)]
        bad = None
        for split in range(n - ko, -1, -1):
            for turn in (1, -1):
                kw = dict(list(zip(names, values))[split:][::turn])
                r, ran = run(f, log, values[:split], kw)
                out.call()
                if naive:
                    ok = r[0] == "raise" and not ran and r[1] == "NoTimeZoneInfoError" and any("'%s'" % names[i] in r[2] for i in naive)
                else:
                    ok = r[0] == "ok" and ran == 1 and len(r[1]) == n and all(a is b for a, b in zip(r[1], values))
                if not ok and not bad:
                    bad = "%d positional, the others named: %r, body ran %d times" % (split, r, ran)
        if bad:
            out.fail([n, ko, guarded, naive], bad)
        else:
            out.ok(n - ko + 1)
    return out


def errors(cases):
    """[argument name, datetime as a case or None]: the error class itself, stacking, methods and generators"""
    out = Outcome()
    T = api.tzinfo_check
    for c in cases:
        how, name, w = c
        when = D.dt(w)
        body = []

        def f(a, b=None, *rest, c=None):
            body.append(1)
            return (a, b, c, rest)
        if how == "stacked":
            g = T.check_aware_dt("a")(T.check_aware_dt("c")(T.check_aware_dt("b")(f)))
        elif how == "method":
            class C:
                @T.check_aware_dt("a", "b", "c")
                def m(self, a, b=None, *rest, c=None):
                    body.append(1)
                    return (a, b, c, rest)
            g = C().m
        elif how == "generator":
            @T.check_aware_dt("a", "b", "c")
            def gen(a, b=None, *rest, c=None):
                body.append(1)
                yield (a, b, c, rest)
            g = lambda *x, **k: next(gen(*x, **k))
        elif how == "unknown name":
            g = T.check_aware_dt("a", "zzz", "b", "c", "rest")(f)
        elif how == "repeated":
            g = T.check_aware_dt("a", "b", "c", "a", "b")(f)
        else:
            g = T.check_aware_dt("c", "b", "a")(f)
        vals = dict(a=AWARE[0], b=AWARE[1], c=AWARE[2])
        vals[name] = when
        r = api.outcome(g, vals["a"], vals["b"], c=vals["c"])
        out.call()
        if when.tzinfo is None:
            try:
                g(vals["a"], vals["b"], c=vals["c"])
            except Exception as e:  # noqa: BLE001
                err = e
            ok = r[0] == "raise" and not body and isinstance(err, T.NoTimeZoneInfoError) and isinstance(err, ValueError) and err.argname == name and err.dt is when and "'%s'" % name in r[2] and str(when) in r[2]
        else:
            ok = r[0] == "ok" and r[1][:3] == (vals["a"], vals["b"], vals["c"]) and body == [1]
        if ok:
            out.ok()
        else:
            out.fail(c, "%r, body ran %d times" % (r, len(body)))
    return out


KINDS = ["bound method", "class method", "static method", "inherited method", "method of a method", "callable object", "class", "class with new", "partial", "partial by name", "partial of a method", "wrapped", "wrapped method",
         "cached", "function without documentation", "generator", "coroutine", "asynchronous generator", "context manager", "dispatching", "outer class method", "outer static method"]


def target(kind, log):
    """(a callable of a, b=None, c=None by keyword only or last, and what is guarded) - new at every call; records in log when its body runs"""
    import functools
    import contextlib

    def body(*x):
        log.append(1)
        return ("result",) + x

    class C:
        def __init__(self, a=None, b=None, *, c=None):
            """starts"""
            if kind == "class":
                body()
            self.got = ("result", a, b, c)

        def m(self, a, b=None, *, c=None):
            """method"""
            return body(a, b, c)

        @classmethod
        def k(cls, a, b=None, *, c=None):
            return body(a, b, c)

        @staticmethod
        def s(a, b=None, *, c=None):
            return body(a, b, c)

        def __call__(self, a, b=None, *, c=None):
            return body(a, b, c)

        def __len__(self):
            return 0

    class New:
        def __new__(cls, a, b=None, *, c=None):
            o = object.__new__(cls)
            o.got = body(a, b, c)
            return o

    class Sub(C):
        pass

    def f(a, b=None, *, c=None):
        """function"""
        return body(a, b, c)

    def h(first, a, b=None, *, c=None):
        return body(a, b, c)
    if kind == "bound method":
        return C().m
    if kind == "class method" or kind == "outer class method":
        return C.k
    if kind == "static method" or kind == "outer static method":
        return C.s
    if kind == "inherited method":
        return Sub().m
    if kind == "method of a method":
        import types
        return types.MethodType(C().m.__func__, Sub())
    if kind == "callable object":
        return C()
    if kind == "class":
        return C
    if kind == "class with new":
        return New
    if kind == "partial":
        return functools.partial(h, "first")
    if kind == "partial by name":
        return functools.partial(lambda a, b=None, *, c=None, d: body(a, b, c), d=7)
    if kind == "partial of a method":
        return functools.partial(C.m, C())
    if kind == "wrapped":
        return functools.wraps(f)(lambda *x, **k: f(*x, **k))
    if kind == "wrapped method":
        class D:
            @functools.wraps(C.m)
            def m(self, *x, **k):
                return C().m(*x, **k)
        return D().m
    if kind == "cached":
        return functools.lru_cache(maxsize=None)(f)
    if kind == "function without documentation":
        return lambda a, b=None, *, c=None: body(a, b, c)
    if kind == "dispatching":
        return functools.singledispatch(f)
    if kind == "generator":
        def gen(a, b=None, *, c=None):
            """generator"""
            x = yield body(a, b, c)
            log.append(2)
            yield body(x, c)
            return "end"
        return gen
    if kind == "coroutine":
        async def co(a, b=None, *, c=None):
            return body(a, b, c)
        return co
    if kind == "asynchronous generator":
        async def ag(a, b=None, *, c=None):
            yield body(a, b, c)
        return ag
    if kind == "context manager":
        @contextlib.contextmanager
        def cm(a, b=None, *, c=None):
            yield body(a, b, c)
            log.append(3)
        return cm
    raise ValueError(kind)


def use(f, log, args, kw):
    """everything a caller can see of one call: outcome, what of the body had run when it returned, what the result then does"""
    del log[:]
    r = api.outcome(f, *args, **kw)
    ran = list(log)
    if r[0] == "ok":
        x, seen = r[1], [type(r[1]).__name__]
        if inspect.isgenerator(x):
            seen += [next(x), list(log), x.send("sent"), list(log)]
            try:
                next(x)
            except StopIteration as e:
                seen.append(e.value)
        elif inspect.iscoroutine(x):
            try:
                x.send(None)
            except StopIteration as e:
                seen.append(e.value)
        elif inspect.isasyncgen(x):
            try:
                x.__anext__().send(None)
            except StopIteration as e:
                seen.append(e.value)
        elif hasattr(x, "__enter__"):
            with x as y:
                seen += [y, list(log)]
        else:
            seen.append(getattr(x, "got", x))
        r = ("ok", tuple(map(lambda v: tuple(v) if isinstance(v, list) else v, seen)) + (tuple(log),))
    elif r[1] == "TypeError":
        r = r[:2]  # the text names the function
    return r, ran


def callables(cases):
    """[kind of callable, guarded names, kinds of values]: guarded twin against unguarded twin, all splits into positional and named arguments"""
    out = Outcome()
    T = api.tzinfo_check
    for c in cases:
        kind, guarded, kinds = c
        plog, glog = [], []
        plain, inner = target(kind, plog), target(kind, glog)
        r = api.outcome(lambda: T.check_aware_dt(*guarded)(inner))
        if r[0] != "ok":
            out.fail(c, "decorating raised %r" % (r[1:],))
            continue
        g, bad, cnt = r[1], None, 0
        if kind.startswith("outer"):
            class Owner:
                m = (classmethod if "class" in kind else staticmethod)(g) if "static" in kind else staticmethod(g)
            g = Owner().m
        for a in ("__name__", "__doc__", "__qualname__", "__module__"):
            if hasattr(inner, a) and (kind != "callable object" or a in ("__name__", "__qualname__")) and getattr(g, a, "none") != getattr(inner, a):
                bad = "%s is %r, unguarded %r" % (a, getattr(g, a, "none"), getattr(inner, a))
        if str(inspect.signature(g)) != str(inspect.signature(inner)):
            bad = "signature %s, unguarded %s" % (inspect.signature(g), inspect.signature(inner))
        what = {x: kinds[i % len(kinds)] for i, x in enumerate(guarded)}
        for turn in range(3):
            for npos in range(4):
                for names in ([], ["b"], ["c"], ["c", "b"], ["a"], ["b", "a"], ["a", "b", "c"], ["a", "z"]):
                    vals = {x: value(what[x], i + turn + npos) if x in what else ("value", x) for i, x in enumerate("abc")}
                    args = [vals["ab"[i]] if i < 2 else ("extra", i) for i in range(npos)]
                    kw = {x: vals.get(x, 5) for x in names}
                    given = {"ab"[i] for i in range(min(npos, 2))} | set(names)
                    try:
                        ref, pran = use(plain, plog, args, kw)
                    except TypeError:
                        continue
                    got, gran = use(g, glog, args, kw)
                    cnt += 2
                    wrong = [x for x in guarded if x in given and what[x] in ("naive", "foreign")]
                    if wrong:
                        ok = got[0] == "raise" and not gran and (got[1] == ("NoTimeZoneInfoError" if what[wrong[0]] == "naive" else "ValueError") and any("'%s'" % x in got[2] for x in wrong)
                                                                 or len(wrong) > 1 and got[1] in ("NoTimeZoneInfoError", "ValueError") or ref[:2] == got[:2] == ("raise", "TypeError"))
                    else:
                        ok = gran == pran and got[0] == ref[0] and same(got[1:], ref[1:])
                    if not ok and not bad:
                        bad = "with %d positional and %r: %r, ran %r; unguarded %r, ran %r" % (npos, names, got, gran, ref, pran)
        out.call(cnt)
        if bad:
            out.fail(c, bad)
        else:
            out.ok(cnt // 2)
    return out


def spaces(tier):
    th = tier == "thorough"
    cs, k = [], 0
    for n in ((1, 2, 3, 4) if th else (1, 2, 3)):
        for sig in signatures(n):
            for r in (1, 2):
                for guarded in itertools.combinations(NAMES[:n], r):
                    for kinds in ([["aware"], ["naive"], ["array"], ["foreign"]] if r == 1 else [["aware", "naive"], ["naive", "aware"], ["array", "naive"], ["aware", "array"], ["naive", "naive"], ["aware", "aware"]]):
                        k += 1
                        cs.append([sig, list(guarded) if k % 2 else list(guarded)[::-1], kinds, k % 5 == 0])
    er = [[h, x, D.W(2016, 1 + i, 3, 4, 5, 6, 7, o)] for h in ("stacked", "method", "generator", "unknown name", "repeated", "plain") for x in "abc" for i, o in enumerate((None, 0, 3600, -59, None))]
    ws = []
    for n in (range(1, 61) if th else list(range(1, 33)) + [60]):
        for i in range(n):
            for ko in {0, 1, n // 2, n}:
                ws += [[n, ko, [i], []], [n, ko, [i], [i]]]
                j = (i * 7 + n) % n
                if j != i:
                    ws += [[n, ko, [i, j], []], [n, ko, [i, j], [i]], [n, ko, [i, j], [j]], [n, ko, [j, i], [i, j]]]
    cl = [[kind, list(g), ks] for kind in KINDS for r in (1, 2, 3) for g in itertools.permutations("abc", r) for ks in ([["aware"], ["naive"], ["foreign"], ["array"]] if r == 1 else [["aware"], ["aware", "naive"], ["naive", "aware"], ["array", "foreign"]])
          if not (kind == "cached" and "array" in ks)]
    return [Space("callables", cl, callables, chunk=40), Space("wide", ws, wide, chunk=200), Space("errors", er, errors), Space("signatures", cs, check, chunk=40)]
