"""Fault points for check C41: every distinct place (start of a function, line, return) the library passes in one operation, in order, and
operations abandoned there by an exception raised through sys.settrace.

Left out are places where CPython itself delivers no interrupt: the lines of with statements (an event at the end of the block belongs to the block's
clean-up code), of finally blocks and of exception handlers."""
import ast
import os
import sys

from . import core

ROOT = os.path.realpath(os.path.join(core.REPO, "pysolar")) + os.sep


class Timeout(Exception):
    """what a time-out helper raises from a signal handler"""


KINDS = {"interrupt": KeyboardInterrupt, "timeout": Timeout, "memory": MemoryError}
_skip = {}


def skipped(filename):
    if filename not in _skip:
        lines = set()
        with open(filename, "rb") as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                lines.add(n.lineno)
                for i in n.items:
                    lines.update(range(i.context_expr.lineno, i.context_expr.end_lineno + 1))
            for part in (getattr(n, "finalbody", None) or []) + [h for h in getattr(n, "handlers", None) or []]:
                lines.update(range(part.lineno, part.end_lineno + 1))
        _skip[filename] = lines
    return _skip[filename]


class Tracer:
    """counts the places passed; at the given occurrence of the given place, raises"""

    def __init__(self, place=None, occurrence=0, kind=None):
        self.count, self.place, self.occurrence, self.kind, self.fired, self.dropped = {}, place, occurrence, kind, False, False
        self.files = {}

    def inside(self, code):
        f = code.co_filename
        if f not in self.files:
            r = os.path.realpath(f)
            self.files[f] = (r[len(ROOT):], skipped(r)) if r.startswith(ROOT) and os.path.exists(r) else None
        return self.files[f]

    def point(self, event, frame, known):
        name, skip = known
        if frame.f_lineno in skip:
            return
        key = (name, frame.f_lineno, event, frame.f_code.co_qualname)
        n = self.count[key] = self.count.get(key, 0) + 1
        if key == self.place and n == self.occurrence and not self.fired:
            self.fired = True
            raise KINDS[self.kind]("injected")

    def __call__(self, frame, event, arg):
        known = self.inside(frame.f_code)
        if known is None:
            return None
        if self.place is not None and (self.fired or frame.f_code.co_qualname != self.place[3]):
            return None     # only the function with the place wanted is followed line by line
        self.point("call", frame, known)
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "return"):
            self.point(event, frame, self.inside(frame.f_code))
        return self.local


def traced(tracer, f):
    """-> ("ok", value) or ("raise", exception); tracer.dropped: the interpreter itself dropped the exception, where it can hand it to nobody (a generator being cleared away)"""
    def dropped(u, before=sys.unraisablehook):
        if str(u.exc_value) == "injected" and isinstance(u.exc_value, tuple(KINDS.values())):
            tracer.dropped = True
        else:
            before(u)
    hook, sys.unraisablehook = sys.unraisablehook, dropped
    sys.settrace(tracer)
    try:
        r = f()
        sys.settrace(None)
        return "ok", r
    except BaseException as e:  # noqa: BLE001
        sys.settrace(None)
        return "raise", e
    finally:
        sys.settrace(None)
        sys.unraisablehook = hook


def places(f, per_place):
    """[(place, occurrence)] passed by f(): of each place the first `per_place` occurrences and the last"""
    t = Tracer()
    traced(t, f)
    res = []
    for k, n in t.count.items():
        res += [(k, i) for i in sorted(set(range(1, min(n, per_place) + 1)) | {n})]
    return res


def prepare():
    """read all files once, before any fork"""
    for d, _, names in os.walk(ROOT):
        for n in names:
            if n.endswith(".py"):
                skipped(os.path.join(d, n))


prepare()
