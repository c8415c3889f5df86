"""Unusual states a process may be in when the library is called (check C39): each is entered and left again.  Imports nothing of the library under check."""
import contextlib
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import time
import tracemalloc
import warnings


def _pair(get, put, value):
    @contextlib.contextmanager
    def cm():
        keep = get()
        put(value)
        try:
            yield
        finally:
            put(keep)
    return cm


def _attr(obj, name, value):
    return _pair(lambda: getattr(obj, name), lambda v: setattr(obj, name, v), value)


def _np(get, put, value):
    """numpy settings, which are dictionaries"""
    @contextlib.contextmanager
    def cm():
        import numpy as np
        keep = getattr(np, get)()
        getattr(np, put)(**value) if isinstance(value, dict) else getattr(np, put)(value)
        try:
            yield
        finally:
            getattr(np, put)(**keep) if isinstance(keep, dict) else getattr(np, put)(keep)
    return cm


@contextlib.contextmanager
def _gc_off():
    gc.disable()
    try:
        yield
    finally:
        gc.enable()


@contextlib.contextmanager
def _zone():
    keep = os.environ.get("TZ")
    os.environ["TZ"] = "EST5EDT,M3.2.0,M11.1.0"
    time.tzset()
    try:
        yield
    finally:
        os.environ.pop("TZ")
        if keep is not None:
            os.environ["TZ"] = keep
        time.tzset()


@contextlib.contextmanager
def _handler():
    h = logging.NullHandler()
    level = logging.root.level
    logging.root.addHandler(h)
    logging.root.setLevel(7)
    try:
        yield
    finally:
        logging.root.removeHandler(h)
        logging.root.setLevel(level)


@contextlib.contextmanager
def _decimals():
    with decimal.localcontext() as c:
        c.prec, c.rounding = 5, decimal.ROUND_UP
        c.traps[decimal.Inexact] = True
        yield


@contextlib.contextmanager
def _onoff(on, off):
    on()
    try:
        yield
    finally:
        off()


@contextlib.contextmanager
def _mask():
    keep = signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2, signal.SIGHUP])
    try:
        yield
    finally:
        signal.pthread_sigmask(signal.SIG_SETMASK, keep)


@contextlib.contextmanager
def _alarm():
    keep = signal.signal(signal.SIGALRM, signal.SIG_IGN)
    signal.setitimer(signal.ITIMER_REAL, 3000, 0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, keep)


@contextlib.contextmanager
def _locales(parts):
    keep = {c: locale.setlocale(c) for c in parts}
    for c, v in parts.items():
        locale.setlocale(c, v)
    try:
        yield
    finally:
        for c, v in keep.items():
            locale.setlocale(c, v)


def _nothing(*a, **k):
    return None


STATES = {
    "plain": contextlib.nullcontext,
    "collector off": _gc_off,
    "collector busy": _pair(gc.get_threshold, lambda v: gc.set_threshold(*v), (1, 2, 3)),
    "collector callback": lambda: _onoff(lambda: gc.callbacks.append(_nothing), lambda: gc.callbacks.remove(_nothing)),
    "numpy errors ignored": _np("geterr", "seterr", dict(all="ignore")),
    "numpy errors raised": _np("geterr", "seterr", dict(all="raise")),
    "numpy errors mixed": _np("geterr", "seterr", dict(divide="ignore", over="raise", under="warn", invalid="print")),
    "numpy error call": _np("geterrcall", "seterrcall", _nothing),
    "numpy buffer": _np("getbufsize", "setbufsize", 16384),
    "numpy printing": _np("get_printoptions", "set_printoptions", dict(precision=2, suppress=True, legacy=False)),
    "recursion limit": _pair(sys.getrecursionlimit, sys.setrecursionlimit, 4321),
    "switch interval": _pair(sys.getswitchinterval, sys.setswitchinterval, 0.0123),
    "integer digits": _pair(sys.get_int_max_str_digits, sys.set_int_max_str_digits, 0),
    "decimal context": _decimals,
    "seeded": _pair(random.getstate, random.setstate, random.Random(7).getstate()),
    "zone": _zone,
    "directory": _pair(os.getcwd, os.chdir, "/"),
    "umask": _pair(lambda: (lambda v: (os.umask(v), v)[1])(os.umask(0)), os.umask, 0o137),
    "locale": _pair(lambda: locale.setlocale(locale.LC_ALL), lambda v: locale.setlocale(locale.LC_ALL, v), "C.utf8"),
    "locale parts": lambda: _locales({locale.LC_NUMERIC: "C.utf8", locale.LC_TIME: "POSIX", locale.LC_COLLATE: "C.utf8"}),
    "profile": _pair(sys.getprofile, sys.setprofile, _nothing),
    "trace": _pair(sys.gettrace, sys.settrace, _nothing),
    "thread trace": _pair(threading.gettrace, threading.settrace, _nothing),
    "logging": _handler,
    "signal mask": _mask,
    "alarm": _alarm,
    "faulthandler": lambda: _onoff(lambda: faulthandler.enable(sys.__stderr__), faulthandler.disable),
    "tracemalloc": lambda: _onoff(tracemalloc.start, tracemalloc.stop),
    "bytecode": _attr(sys, "dont_write_bytecode", False),
    "path": lambda: _onoff(lambda: sys.path.insert(0, "/nonexistent"), lambda: sys.path.remove("/nonexistent")),
    "environment": lambda: _onoff(lambda: os.environ.__setitem__("PYSOLAR_X", "1"), lambda: os.environ.pop("PYSOLAR_X", None)),
    "arguments": _attr(sys, "argv", ["x", "--verbose"]),
    "warnings hook": _attr(warnings, "formatwarning", _nothing),
}


@contextlib.contextmanager
def _hooks():
    with _attr(sys, "excepthook", _nothing)(), _attr(sys, "displayhook", _nothing)(), _attr(sys, "unraisablehook", _nothing)(), _attr(threading, "excepthook", _nothing)():
        yield


@contextlib.contextmanager
def _streams():
    with contextlib.redirect_stdout(io.StringIO()) as a, contextlib.redirect_stderr(io.StringIO()) as b:
        yield
    if a.getvalue() or b.getvalue():
        raise AssertionError("wrote %r" % ((a.getvalue() + b.getvalue())[:200],))


@contextlib.contextmanager
def _signals():
    keep = [(s, signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1)]
    for s, _ in keep:
        signal.signal(s, _nothing)
    try:
        yield
    finally:
        for s, h in keep:
            signal.signal(s, h)


@contextlib.contextmanager
def _limits():
    """every limit of the process at an unusual, generous value"""
    keep = {}
    for name in sorted(dir(resource)):
        if name.startswith("RLIMIT_") and name not in ("RLIMIT_NICE", "RLIMIT_RTPRIO", "RLIMIT_NPROC", "RLIMIT_SIGPENDING", "RLIMIT_STACK"):
            r = getattr(resource, name)
            soft, hard = resource.getrlimit(r)
            keep[r] = soft, hard
            v = 1000003 if name == "RLIMIT_NOFILE" else (1 << 43) + 4096
            if hard != resource.RLIM_INFINITY:
                v = max(0, min(v, hard - 1))
            resource.setrlimit(r, (v, hard))
    try:
        yield
    finally:
        for r, v in keep.items():
            resource.setrlimit(r, v)


@contextlib.contextmanager
def _processors():
    keep = os.sched_getaffinity(0)
    os.sched_setaffinity(0, sorted(keep)[:max(1, len(keep) - 1)])
    try:
        yield
    finally:
        os.sched_setaffinity(0, keep)


STATES.update(limits=_limits, processors=_processors, hooks=_hooks, streams=_streams, signals=_signals)
# statements that put a fresh interpreter into one of the states, before the library is imported
PRELUDE = "import mc.prior, contextlib; _s = mc.prior.STATES[%r](); _s.__enter__()"
