"""Canonical picture of everything the library keeps between calls, and forked execution from a pristine library.

canonical() walks all module-level state of the package (globals, function defaults, closure cells, function and class attributes,
caches, instances of its own classes) and returns (digest, opaque): opaque says that some part cannot be looked into
(an lru_cache, an iterator ...), in which case states may not be merged by digest alone."""
import datetime
import functools
import hashlib
import marshal
import os
import pickle
import signal
import sys
import types
import warnings

from . import core

SKIP = {"__builtins__", "__warningregistry__", "__cached__", "__file__", "__loader__", "__spec__", "__path__", "__doc__", "__package__",
        "__name__", "__annotations__"}
_LRU = type(functools.lru_cache(maxsize=1)(lambda: 0))


class _Walk:
    def __init__(self):
        self.h = hashlib.blake2b(digest_size=12)
        self.opaque = False
        self.seen = {}
        self.keep = []

    def put(self, *xs):
        for x in xs:
            self.h.update(repr(x).encode("utf-8", "backslashreplace"))
            self.h.update(b"|")

    def walk(self, x):
        try:
            self._walk(x)
        except Exception:  # noqa: BLE001  something that cannot be looked into: its states are then never taken to be equal
            self.put("?", type(x).__qualname__)
            self.opaque = True

    def _walk(self, x):
        t = type(x)
        if x is None or t in (int, float, complex, bool, str, bytes):
            self.put(t.__name__, x)
            return
        if t in (list, tuple, dict, set, frozenset):
            try:
                m = marshal.dumps(x, 2) if t not in (set, frozenset) else None
            except ValueError:
                m = None
            if m is not None:
                self.h.update(m)
                return
        if id(x) in self.seen:
            self.put("ref", self.seen[id(x)])
            return
        self.seen[id(x)] = len(self.seen)
        self.keep.append(x)
        if t in (list, tuple):
            self.put(t.__name__, len(x))
            for y in x:
                self.walk(y)
        elif isinstance(x, dict):
            self.put(t.__name__, len(x))
            for k in list(x):
                self.walk(k)
                self.walk(x[k])
        elif t in (set, frozenset):
            self.put(t.__name__, sorted(map(repr, x)))
        elif isinstance(x, (datetime.datetime, datetime.date, datetime.time, datetime.timedelta, datetime.tzinfo)):
            self.put(t.__name__, x, getattr(x, "fold", None))
        elif isinstance(x, types.ModuleType):
            self.put("module", x.__name__)
        elif isinstance(x, types.FunctionType):
            self.put("function", x.__module__, x.__qualname__)
            if str(x.__module__).split(".")[0] == "pysolar":
                self.walk(x.__defaults__)
                self.walk(x.__kwdefaults__)
                for c in x.__closure__ or ():
                    try:
                        self.walk(c.cell_contents)
                    except ValueError:
                        self.put("empty cell")
                self.walk({k: v for k, v in x.__dict__.items() if k != "__wrapped__"})
                if hasattr(x, "__wrapped__"):
                    self.walk(x.__wrapped__)
        elif isinstance(x, _LRU):
            i = x.cache_info()
            self.put("lru", x.__qualname__, i.currsize)
            if i.currsize:
                self.opaque = True
        elif isinstance(x, type):
            self.put("class", x.__module__, x.__qualname__)
            if str(x.__module__).split(".")[0] == "pysolar":
                for k, v in sorted(x.__dict__.items()):
                    if k not in SKIP and k not in ("__dict__", "__weakref__"):
                        self.put(k)
                        self.walk(v)
        elif t.__module__ == "numpy" and hasattr(x, "tobytes"):
            self.put("numpy", str(x.dtype), x.shape)
            if x.dtype.hasobject:
                self.walk(x.tolist())
            else:
                self.h.update(x.tobytes())
        elif isinstance(x, (types.BuiltinFunctionType, types.MethodType, staticmethod, classmethod, property)) or t.__name__ == "ufunc":
            self.put(t.__name__, getattr(x, "__name__", ""))
            f = getattr(x, "__func__", None)
            if f is not None:
                self.walk(f)
            if isinstance(x, types.MethodType):
                self.walk(x.__self__)
        elif str(t.__module__).split(".")[0] == "pysolar" or isinstance(x, types.SimpleNamespace):
            self.put("instance", t.__qualname__)
            d = getattr(x, "__dict__", None)
            if d is not None:
                self.walk(dict(d))
            for c in t.__mro__:
                for s in ([c.__slots__] if isinstance(c.__dict__.get("__slots__"), str) else c.__dict__.get("__slots__", ())):
                    if hasattr(x, s):
                        self.walk(getattr(x, s))
            if isinstance(x, (list, tuple)):
                for y in x:
                    self.walk(y)
        elif t.__name__ == "_tuplegetter":
            self.put(t.__name__)
        elif isinstance(x, functools.partial):
            self.put("partial")
            self.walk([x.func, x.args, x.keywords])
        elif isinstance(x, types.MappingProxyType):
            self.put("mappingproxy")
            self.walk(dict(x))
        elif t.__module__ in ("_collections", "collections"):
            self.put(t.__name__)
            try:
                self.walk(list(x.items()) if hasattr(x, "items") else list(x))
            except RuntimeError:
                self.opaque = True
        elif hasattr(x, "locked"):
            self.put("lock", x.locked())
        elif t.__module__ in ("_thread", "threading", "inspect", "re", "logging", "types", "typing", "functools", "decimal", "fractions"):
            self.put(t.__module__, t.__qualname__)
            if t.__name__ in ("local", "_local"):
                self.opaque = True
            if t.__module__ in ("decimal", "fractions"):
                self.put(str(x))
        else:
            self.put(t.__module__, t.__qualname__)
            try:
                m = pickle.dumps(x, 2)
                self.h.update(m)
            except Exception:  # noqa: BLE001
                if not callable(x):
                    self.opaque = True


def modules():
    return sorted(n for n in sys.modules if n == "pysolar" or n.startswith("pysolar."))


def canonical(skip=()):
    w = _Walk()
    for n in modules():
        d = vars(sys.modules[n])
        w.put(n)
        for k in sorted(d):
            if k in SKIP or (n, k) in skip:
                continue
            w.put(k)
            w.walk(d[k])
    return w.h.hexdigest(), w.opaque


def by_name():
    """{(module, global name): digest} of everything but the plain constant tables"""
    res = {}
    for n in modules():
        d = vars(sys.modules[n])
        for k in sorted(d):
            if k in SKIP:
                continue
            w = _Walk()
            w.walk(d[k])
            res[n, k] = w.h.hexdigest()
    return res


def tables():
    """{name: digest} of the published constants (everything plain in pysolar.constants, and all module-level numbers elsewhere)"""
    res = {}
    for n in modules():
        for k, v in sorted(vars(sys.modules[n]).items()):
            if k in SKIP or k == "__warningregistry__":
                continue
            if isinstance(v, (list, tuple, dict)) and n == "pysolar.constants" or \
                    n in ("pysolar.constants", "pysolar.solartime", "pysolar.util") and isinstance(v, (list, tuple, float, int)) and not k.startswith("_"):
                w = _Walk()
                w.walk(v)
                res[n + "." + k] = w.h.hexdigest()
    return res


class Gone(Exception):
    """the forked run died or timed out"""


_frozen = False


def forked(f, *args, seconds=60):
    """run f(*args) in a forked copy of this (pristine) process; returns its picklable result"""
    global _frozen
    if not _frozen:
        import gc
        gc.collect()
        gc.freeze()
        gc.disable()
        _frozen = True
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    data = pickle.dumps(("ok", f(*args)))
                except BaseException as e:  # noqa: BLE001
                    import traceback
                    data = pickle.dumps(("err", "".join(traceback.format_exception(e))[-1500:]))
            with os.fdopen(w, "wb") as o:
                o.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise Gone("the run was ended (status %d): no result within %d s, or a crash" % (st, seconds))
    kind, val = pickle.loads(data)
    if kind == "err":
        raise Gone(val)
    return val


def plain(x):
    """picklable, comparable picture of a result: (type name, value) leaves"""
    import numpy as np
    if isinstance(x, dict):
        return ["dict"] + [[k, plain(x[k])] for k in sorted(x, key=repr)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [plain(y) for y in x]
    if isinstance(x, np.ndarray):
        return ["array", str(x.dtype), list(x.shape), [plain(y) for y in x.ravel().tolist()]]
    if isinstance(x, datetime.datetime):
        return ["datetime", x.replace(tzinfo=None).isoformat(), str(x.utcoffset()), type(x.tzinfo).__name__, x.fold]
    if isinstance(x, (bool, np.bool_)):
        return [type(x).__name__, bool(x)]
    if isinstance(x, (int, float, np.integer, np.floating)):
        return [type(x).__name__, float(x)]
    if isinstance(x, (str, type(None))):
        return [type(x).__name__, x]
    if hasattr(x, "__next__"):
        return ["iterator"]
    if callable(x):
        return ["callable"]
    return [type(x).__name__, repr(x)]


def same(a, b, types_too=False, tol=1e-11):
    """equality of plain pictures; numbers to a relative 1e-11"""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        if len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], float) and isinstance(b[1], float):
            if types_too and a[0] != b[0]:
                return False
            x, y = a[1], b[1]
            return x == y or (x != x and y != y) or abs(x - y) <= tol * max(1.0, abs(x), abs(y))
        return all(same(x, y, types_too, tol) for x, y in zip(a, b))
    return a == b
