"""Child process of check C40: evaluates calls in one process environment, then again in each of the in-process contexts asked for.
stdin {"jobs": [[function, arguments, backend], ...], "contexts": [...]}; stdout {"base": [...], "differ": [[context, index, value], ...], "count": n, "seen": {...}}"""
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import asyncio  # noqa: E402
import builtins  # noqa: E402
import contextlib  # noqa: E402
import datetime  # noqa: E402
import gc  # noqa: E402
import io  # noqa: E402
import json  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402
import types  # noqa: E402
import warnings  # noqa: E402

ASKED, FILES, ATTRS = set(), set(), set()
REDIRECT = {}
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
REPO = os.path.realpath(os.environ.get("PYSOLAR_REPO", "/repo")) + os.sep


def by_library():
    """is the library what asks?  (through whatever modules of Python it does)"""
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith("<frozen importlib") or n.endswith("tokenize.py") or n.endswith("linecache.py"):
            return False
        if n.startswith(REPO):
            return True
        if n.startswith(HERE) and f.f_code.co_name not in ("asks", "__getattribute__", "__getattr__"):
            return False
        f = f.f_back
    return False


def _files(module, name):
    original = getattr(module, name)

    def asks(path=".", *args, **kwargs):
        if isinstance(path, (str, os.PathLike)) and by_library():
            p = os.fspath(path)
            if isinstance(p, str) and not os.path.abspath(p).startswith(REPO):
                FILES.add(p)
            path = REDIRECT.get(p, path)
        return original(path, *args, **kwargs)
    setattr(module, name, asks)


def _attributes(module):
    class Watched(types.ModuleType):
        def __getattribute__(self, name):
            if self is module and name not in names and by_library():
                ATTRS.add((called, name))
            return super().__getattribute__(name)
    names, called = vars(module), module.__name__
    module.__class__ = Watched


def _record(kind):
    """note which environment variables the library itself asks for"""
    original = getattr(type(os.environ), kind)

    def asks(self, key, *args):
        if by_library():
            ASKED.add(key if isinstance(key, str) else repr(key))
        return original(self, key, *args)
    setattr(type(os.environ), kind, asks)


START = os.environ.pop("MC_START", "")
STREAMS = sys.stdin, sys.stdout
import numpy  # noqa: E402, F401
for _x in START.split():
    if _x == "streams":
        sys.stdin = sys.stdout = sys.stderr = sys.__stdin__ = sys.__stdout__ = sys.__stderr__ = None
    elif _x == "argv":
        del sys.argv, sys.orig_argv
    elif _x == "directory":
        import tempfile
        _d = tempfile.mkdtemp(prefix="c40-")
        os.chdir(_d)
        os.rmdir(_d)
    elif _x == "main":
        del sys.modules["__main__"]
_record("__getitem__")
_record("__contains__")
_record("get")
SETUP = json.loads(os.environ.pop("MC_SETUP", "[]"))
if SETUP[:1] == ["attr"]:       # something a module of the process has, that it does not have otherwise
    setattr(sys.modules[SETUP[1]], SETUP[2], SETUP[3])
elif SETUP[:1] == ["file"]:     # what is found at a path
    REDIRECT[SETUP[1]] = SETUP[2]
for _m, _n in ((os, "stat"), (os, "lstat"), (os, "access"), (os, "open"), (os, "listdir"), (os, "scandir"), (builtins, "open"), (io, "open")):
    _files(_m, _n)
for _m in (sys.modules.get("__main__"), builtins):
    if _m is not None:
        _attributes(_m)
from mc import api, domains as D, functions, nonumpy  # noqa: E402
_attributes(sys)        # last: new modules are made of its class


def outcome(name, args):
    try:
        if name.startswith("simulate."):
            lat, lon, start, minutes, step = args
            t = D.dt(start)
            end = t + datetime.timedelta(minutes=minutes)
            if name == "simulate.datetime_range":
                return ["ok", nonumpy.leaf(list(api.simulate.datetime_range(t, end, step)))]
            return ["ok", nonumpy.leaf([list(r) for r in api.simulate.simulate_span(lat, lon, [float(7 * x % 300) for x in range(361)], t, end, step)])]
        return ["ok", nonumpy.leaf(api.fn(name)(*functions.arguments(name, args)))]
    except Exception as e:  # noqa: BLE001
        return ["raise", type(e).__name__] + ([str(e)] if type(e).__module__.startswith("pysolar") else [])


def evaluate(jobs):
    res = []
    for name, args, b in jobs:
        api.backend(b)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = outcome(name, args)
        res.append([r, sorted({type(x.message).__name__ for x in w if not issubclass(x.category, RuntimeWarning)})])
    return res


@contextlib.contextmanager
def zone(tz):
    keep = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        yield
    finally:
        if keep is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = keep
        time.tzset()


def follow(*a):
    return follow


def within(context, jobs):
    kind, _, arg = context.partition(":")
    if kind == "zone":
        with zone(arg):
            return evaluate(jobs)
    if kind == "thread":
        res = []
        t = threading.Thread(target=lambda: res.append(evaluate(jobs)))
        t.start()
        t.join()
        return res[0]
    if kind == "asyncio":
        async def main():
            return await asyncio.get_running_loop().run_in_executor(None, evaluate, jobs) if arg == "executor" else evaluate(jobs)
        return asyncio.run(main())
    if kind == "gc":
        keep = gc.get_threshold()
        gc.set_threshold(1)
        try:
            return evaluate(jobs)
        finally:
            gc.set_threshold(*keep)
    if kind == "deep":
        def down(n):
            return evaluate(jobs) if n == 0 else down(n - 1)
        return down(int(arg))
    if kind == "cwd":
        keep = os.getcwd()
        os.chdir(arg)
        try:
            return evaluate(jobs)
        finally:
            os.chdir(keep)
    if kind == "generator":
        return [x for x in (evaluate([j])[0] for j in jobs)]
    if kind == "tracing":
        put = dict(profile=sys.setprofile, trace=sys.settrace)[arg]
        put((lambda *a: None) if arg == "profile" else follow)
        try:
            return evaluate(jobs)
        finally:
            put(None)
    raise KeyError(context)


def main():
    job = json.load(STREAMS[0])
    base = evaluate(job["jobs"])
    differ, n = [], len(base)
    for c in job["contexts"]:
        got = within(c, job["jobs"])
        n += len(got)
        differ += [[c, i, x] for i, (x, y) in enumerate(zip(got, base)) if x != y][:20]
    json.dump(dict(base=base, differ=differ, count=n, asked=sorted(ASKED), files=sorted(FILES), attrs=sorted(ATTRS), seen=dict(now=time.time(), today=str(datetime.datetime.now()), tz=time.tzname, hash=hash("pysolar"), debug=__debug__)), STREAMS[1])
    STREAMS[1].flush()


if __name__ == "__main__":
    main()
