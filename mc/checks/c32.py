"""The library in interpreters where numpy cannot be imported (three ways of being absent) against the library with numpy present: every public scalar function over product
alphabets, every history of backend requests up to a depth with probes after every step, every crash point of a backend switch (the k-th import fails), and every order of
importing the submodules."""
import builtins
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from .. import core, domains as D, functions, nonumpy, state
from ..core import Space, Outcome
from .. import api
from . import c10

PROP = "C32"
PROBES = [["solar.get_altitude", [42.2, -71.4, D.W(2016, 12, 31, 23, 59, 59, 999999, -3600), 10.0, 280.0, 90000.0]], ["solar.get_azimuth_fast", [-33.0, 151.0, D.W(2012, 2, 29, 3, 4, 5)]],
          ["util.get_sunrise_sunset_transit", [69.0, 20.0, D.W(2016, 3, 20, 12)]], ["radiation.get_radiation_direct", [D.W(2015, 1, 1), 20.0]], ["radiation.get_radiation_direct", [D.W(2015, 1, 1), -20.0]],
          ["solar.get_incidence_angle", [60.0, 60.0, 0.0, 180.0]], ["rest.get_broadband_direct_normal_irradiance", [30.0, 1013.25, 0.35, 0.0002, 1.5, 1.3, 0.1]], ["solar.get_refraction_correction", [101325.0, 288.15, -6.0]],
          ["util.diffuse_underclear", [42.2, -71.4, D.W(2016, 6, 30, 20), 0.0, 288.15, 101325.0, 1.0]], ["elevation.get_pressure_with_elevation", [1000.0, 101325.0, 288.15, -0.0065, 0.0, 8.31432, 9.80665, 0.0289644]]]
MODES = ["none in sys.modules", "finder", "path"]


def child(mode, **job):
    """run mc.nonumpy in a fresh interpreter"""
    d = tempfile.mkdtemp(prefix="c32-")
    try:
        if mode == "path":
            os.makedirs(os.path.join(d, "numpy"))
            with open(os.path.join(d, "numpy", "__init__.py"), "w") as f:
                f.write("pi = 3.0\ndef sin(x):\n    return 42.0\nraise ImportError('this numpy was built for another interpreter')\n")
            mode = "path:" + d
        p = subprocess.run([sys.executable, "-B", "-m", "mc.nonumpy"], input=json.dumps(dict(job, mode=mode)), capture_output=True, text=True, timeout=200, cwd=core.VERIF,
                           env=dict(os.environ, PYTHONPATH=core.VERIF, PYTHONDONTWRITEBYTECODE="1"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if p.returncode:
        return None, p.stderr[-600:]
    return json.loads(p.stdout), None


def equal(name, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raise":
        return a[1] == b[1]

    def unleaf(x):
        if isinstance(x, str):
            return float(x)
        if x[0] == "dt":
            import datetime
            h = datetime.datetime.fromisoformat(x[1])
            return h
        if x[0] == "dict":
            return {k: unleaf(v) for k, v in x[1:]}
        if x[0] == "seq":
            return [unleaf(v) for v in x[1:]]
        return str(x)
    if "other" in repr(a):
        return a == b
    return c10.same(name, unleaf(a[1]), unleaf(b[1]), None)


def absent(cases):
    """[mode, [[function, arguments], ...]]"""
    out = Outcome()
    for c in cases:
        mode, jobs = c
        got, err = child(mode, jobs=jobs)
        if got is None or got["notes"]:
            out.fail([mode, jobs[:1]], "without numpy: %s" % (err or got["notes"]))
            continue
        for b in api.BACKENDS:
            api.backend(b)
            want = nonumpy.values(jobs)
            out.call(len(jobs))
            for j, g, w in zip(jobs, got["values"], want):
                if equal(j[0], g, w):
                    out.ok()
                elif j[0] in c10.RANGE and ("Overflow" in repr(g) or "inf" in repr(g) or "nan" in repr(g)):
                    out.ok()
                else:
                    out.fail([mode, [j]], "%s%r without numpy: %r, with numpy (%s): %r" % (j[0], tuple(j[1]), g, b, w))
    return out


def histories(cases):
    """[mode, words]"""
    out = Outcome()
    api.backend("math")
    want = nonumpy.values(PROBES)
    for c in cases:
        mode, words = c
        got, err = child(mode, jobs=PROBES, words=words, probes=PROBES)
        if got is None or got["notes"]:
            out.fail([mode, words[:1]], "without numpy: %s" % (err or got["notes"]))
            continue
        for w, trace in zip(words, got["words"]):
            bad = None
            for i, op in enumerate(w):
                step, vals = trace[2 * i], trace[2 * i + 1]
                out.call(1 + len(PROBES))
                if op == "N" and not (step[1] == "raise" and step[2] in ("ImportError", "ModuleNotFoundError")):
                    bad = "asking for numpy: %r" % (step,)
                elif op == "M" and step[1] != "ok":
                    bad = "asking for math: %r" % (step,)
                else:
                    bad = next(("after %s: %s gives %r, expected %r" % (w[:i + 1], p[0], v, x) for p, v, x in zip(PROBES, vals, want) if not equal(p[0], v, x)), None)
                if bad:
                    break
            if bad:
                out.fail([mode, [w]], bad)
            else:
                out.ok()
    return out


def _crash(start, target, k, after):
    """in a forked child: from backend `start`, ask for `target` while the k-th import made by the switch fails; probe; then the requests of `after`, probing after each"""
    pysolar = api.pysolar
    ask = dict(N=pysolar.use_numpy, M=pysolar.use_math)
    ask[start]()
    real, count = builtins.__import__, [0]

    def failing(name, *a, **kw):
        count[0] += 1
        if count[0] == k:
            raise ImportError("injected: import %d (%s)" % (k, name))
        return real(name, *a, **kw)
    builtins.__import__ = failing
    try:
        r = nonumpy.outcome(ask[target])
    finally:
        builtins.__import__ = real
    trace = [[r, count[0], nonumpy.values(PROBES)]]
    for op in after:
        trace.append([nonumpy.outcome(ask[op]), 0, nonumpy.values(PROBES)])
    return trace


def crashes(cases):
    """[backend before, backend asked for, failing import, later requests]"""
    out = Outcome()
    api.backend("math")
    want = nonumpy.values(PROBES)
    for c in cases:
        start, target, k, after = c
        try:
            trace = state.forked(_crash, start, target, k, after)
        except state.Gone as e:
            out.fail(c, str(e))
            continue
        first = trace[0]
        bad = None
        if k <= first[1] and not (first[0][0] == "raise" and "ImportError" in first[0][1]):
            bad = "import %d of %d failed, but the request gave %r" % (k, first[1], first[0])
        if k > first[1] and first[0][0] != "ok":
            bad = "no import failed, but the request gave %r" % (first[0],)
        for i, t in enumerate(trace):
            out.call(1 + len(PROBES))
            if i and t[0][0] != "ok":
                bad = bad or "later request: %r" % (t[0],)
            bad = bad or next(("step %d: %s gives %r, expected %r" % (i, p[0], v, x) for p, v, x in zip(PROBES, t[2], want) if not equal(p[0], v, x)), None)
        if bad:
            out.fail(c, bad)
        else:
            out.ok()
    return out


def _imports(order, froms):
    import importlib
    for n in state.modules():
        del sys.modules[n]
    for n in order:
        if froms:
            exec("from pysolar import " + n if n != "pysolar" else "from pysolar import *", {})
        else:
            importlib.import_module("pysolar." + n if n != "pysolar" else n)
    import pysolar
    assert os.path.realpath(pysolar.__file__).startswith(os.path.realpath(core.REPO))
    api.pysolar = pysolar
    for n in api.MODS:
        api.MODS[n] = importlib.import_module("pysolar." + n)
    res = [nonumpy.values(PROBES)]
    import numpy as np
    # numpy is the default backend: arrays are accepted before anything was asked for
    arr = nonumpy.outcome(lambda: [float(x) for x in api.fn("solar.get_declination")(np.array([1.0, 100.0, 200.0]))])
    pysolar.use_math()
    res.append(nonumpy.values(PROBES))
    pysolar.use_numpy()
    res.append(nonumpy.values(PROBES))
    return res, arr, sorted(n for n in sys.modules if n.startswith("pysolar"))


def orders(cases):
    """[order of imports, with from-imports]"""
    out = Outcome()
    api.backend("math")
    want = nonumpy.values(PROBES)
    dec = ["ok", ["seq"] + [repr(float(api.fn("solar.get_declination")(x))) for x in (1.0, 100.0, 200.0)]]
    for c in cases:
        try:
            res, arr, mods = state.forked(_imports, *c)
        except state.Gone as e:
            out.fail(c, str(e))
            continue
        out.call(3 * len(PROBES) + len(c[0]))
        bad = next(("%s gives %r, expected %r (step %d)" % (p[0], v, x, i) for i, vals in enumerate(res) for p, v, x in zip(PROBES, vals, want) if not equal(p[0], v, x)), None)
        if not equal("solar.get_declination", arr, dec):
            bad = bad or "numpy is not the default backend: declination of an array: %r" % (arr,)
        if bad:
            out.fail(c, bad)
        else:
            out.ok()
    return out


def spaces(tier):
    th = tier == "thorough"
    words = [list(w) for n in range(1, 8 if th else 6) for w in itertools.product("NM", repeat=n)]
    hist = [[m, words[i::4]] for m in MODES for i in range(4)]
    jobs = [[n, c] for n in functions.ALL for c in functions.cases(n, 600 if th else 60)]
    size = 2500
    ab = [[MODES[i // size % 3] if not th else m, jobs[i:i + size]] for i in range(0, len(jobs), size) for m in (MODES if th else [0])]
    cr = [[s, t, k, list(a)] for k in range(1, 18) for s in "NM" for t in "NM" for n in range(0, 3 if th else 2) for a in itertools.product("NM", repeat=n)]
    subs = ["pysolar", "solar", "solartime", "radiation", "util", "constants", "elevation", "simulate", "numeric", "rest", "tzinfo_check"]
    od = [[[a], f] for a in subs for f in (False, True)] + [[list(p), bool(i % 2)] for i, p in enumerate(itertools.permutations(subs, 3 if th else 2))]
    od += [[list(p), False] for p in itertools.permutations(["elevation", "rest", "simulate", "numeric"])]
    return [Space("histories without numpy", hist, histories, chunk=1, describe=lambda c: [c[0], c[1][:2], len(c[1])]), Space("import orders", od, orders, chunk=10), Space("crash points of a switch", cr, crashes, chunk=12),
            Space("functions without numpy", ab, absent, chunk=1, describe=lambda c: [c[0], c[1][:2], len(c[1])])]
