"""Side effects: in every state of the input spaces of all public functions (both backends, scalars and arrays, failing calls and simulations included) the process is compared before and after the call:
warnings issued, bytes written to the standard streams, and everything process-wide a library could touch; the same for importing and switching backends in fresh interpreters with warnings as errors."""
import datetime
import os
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from .. import core, domains as D, functions, ops
from .. import prior
from ..core import Space, Outcome
from ..quiet import picture
from .. import api
from ..ref import timeref

PROP = "C39"


class Streams:
    """what is written to file descriptors 1 and 2, through Python or not"""

    def __enter__(self):
        self.f = tempfile.TemporaryFile()
        sys.stdout.flush()
        sys.stderr.flush()
        self.keep = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)
        return self

    def text(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.f.seek(0)
        return self.f.read()

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.keep[0], 1)
        os.dup2(self.keep[1], 2)
        for x in self.keep:
            os.close(x)
        self.f.close()


ARRAYS = [[n, a] for n, a in ops.ARR.items()]


def documented(name, args, text):
    """the two warnings the library documents"""
    if "solartime" in name or name.split(".")[1] in ("get_position", "get_topocentric_position", "get_altitude", "get_azimuth") or name.startswith("util.") or name.startswith("simulate"):
        if "eap second" in text:
            i = functions.DATED.get(name)
            if i is None:
                return True
            u = D.dt(args[i]).astimezone(D.UTC)
            return (u.year, u.month) > (2026, 6)
    return name == "elevation.get_pressure_with_elevation" and args[0] > 11000 and "11,000" in text


SUNRISE = [n for n in functions.ALL if n.startswith("util.get_")]


def excused(name, args, r):
    """outside the domain in which the function has a finite value: the sun does not rise, division by a zero irradiance, the documented overflow"""
    if r[0] == "raise":
        return True
    return name == "radiation.get_air_mass_ratio" and args[0] == 0 or name in ("util.direct_underclear", "util.global_irradiance_clear") and not np.isfinite(float(r[1]))


def one(out, c, name, args, f):
    before = picture()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with Streams() as s:
            inner = picture()
            r = api.outcome(f)
            after_inner = picture()
            text = s.text()
    after = picture()
    out.call()
    diff = [k for a, b in ((inner, after_inner), (before, after)) for k in a if a[k] != b[k]]
    strange = [str(x.message)[:120] for x in w if not documented(name, args, str(x.message)) and not excused(name, args, r)]
    if diff:
        out.fail(c, "%s changed %s: %.200r to %.200r" % (name, diff[0], (inner if inner[diff[0]] != after_inner[diff[0]] else before)[diff[0]], (after_inner if inner[diff[0]] != after_inner[diff[0]] else after)[diff[0]]))
    elif strange:
        out.fail(c, "%s warned: %s" % (name, strange[0]))
    elif text:
        out.fail(c, "%s wrote %r" % (name, text[:200]))
    else:
        out.ok()


def calls(cases):
    """[function, arguments, backend]"""
    out = Outcome()
    for c in cases:
        name, args, b = c
        api.backend(b)
        a = functions.arguments(name, args)
        one(out, c, name, args, lambda: api.fn(name)(*a))
    return out


def prior_states(cases):
    """[function, arguments, backend, state of the process before]: left as it was found"""
    out = Outcome()
    for c in cases:
        name, args, b, s = c
        with prior.STATES[s]():
            api.backend(b)
            a = functions.arguments(name, args)
            one(out, c, name, args, lambda: api.fn(name)(*a))
            if name == "solar.get_position":
                t = D.dt(D.W(2016, 3, 20, 4))
                one(out, c, "simulate.simulate_span", [], lambda: list(api.simulate.simulate_span(52.0, 13.0, [99.0] * 361, t, t + datetime.timedelta(hours=2), 30)))
                one(out, c, "use_math, use_numpy", [], lambda: (api.pysolar.use_math(), api.pysolar.use_numpy()))
    return out


def arrays(cases):
    """[operation of the history explorer]"""
    out = Outcome()
    api.backend("numpy")
    for c in cases:
        name, args = c[0]
        a = [ops.decode(x, i == functions.DATED.get(name)) for i, x in enumerate(args)]
        one(out, c, name, [D.W(2016)] * len(args), lambda: api.fn(name)(*a))
    return out


def others(cases):
    """failing calls, simulations, backend switches"""
    out = Outcome()
    for kind, b in cases:
        api.backend(b)
        t = D.dt(D.W(2016, 3, 20, 4))
        h = [float((7 * x) % 300) for x in range(361)]
        todo = {"simulate": lambda: list(api.simulate.simulate_span(52.0, 13.0, h, t, t + datetime.timedelta(hours=20), 15)),
                "abandoned simulation": lambda: next(api.simulate.simulate_span(52.0, 13.0, h, t, t + datetime.timedelta(hours=20), 15)),
                "naive": lambda: api.fn("solar.get_altitude")(52.0, 13.0, datetime.datetime(2016, 3, 20)), "none": lambda: api.fn("solar.get_azimuth_fast")(52.0, 13.0, None),
                "text": lambda: api.fn("solar.get_position")("x", 13.0, t), "use_math": api.pysolar.use_math, "use_numpy": api.pysolar.use_numpy,
                "range": lambda: list(api.simulate.datetime_range(t, t + datetime.timedelta(days=2), 7.5))}
        one(out, [kind, b], "simulate." + kind, [], todo[kind])
    return out


PROBE = """
import sys; sys.path.insert(0, %r)
import mc.quiet as q
%s
a = q.settings()
%s
b = q.settings()
bad = ['%%s: %%.300s -> %%.300s' %% (k, a[k], b[k]) for k in a if a[k] != b[k]]
if bad: raise SystemExit('changed ' + '; '.join(bad))
"""


def untouched(cases):
    """[statements of a fresh interpreter, flags]: the process settings are the same before and after"""
    out = Outcome()
    for code, flags, *before in cases:
        p = subprocess.run([sys.executable, "-B"] + flags + ["-c", PROBE % (core.VERIF, prior.PRELUDE % before[0] if before else "", code)], capture_output=True, text=True, timeout=120, cwd=core.VERIF, env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1"))
        out.call()
        if p.returncode:
            out.fail([code, flags] + before, "python %s -c %r: %s" % (" ".join(flags), code, (p.stdout + p.stderr)[-600:]))
        else:
            out.ok()
    return out


def fresh(cases):
    """[statements of a fresh interpreter, flags]: nothing but silence, even with warnings as errors"""
    out = Outcome()
    for code, flags in cases:
        p = subprocess.run([sys.executable, "-B"] + flags + ["-c", code], capture_output=True, text=True, timeout=120, cwd=core.VERIF, env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1"))
        out.call()
        if p.returncode or p.stdout or p.stderr:
            out.fail([code, flags], "python %s -c %r: exit %d, wrote %r %r" % (" ".join(flags), code, p.returncode, p.stdout[-200:], p.stderr[-400:]))
        else:
            out.ok()
    return out


def spaces(tier):
    th = tier == "thorough"
    cs = [[n, c, b] for n in functions.ALL for c in functions.some(n, 10 ** 9 if th else 90, 300 if th else 20) for b in api.BACKENDS]
    codes = ["import pysolar", "import pysolar.solar", "from pysolar import *", "from pysolar.solar import *", "import pysolar.simulate, pysolar.rest, pysolar.elevation", "import pysolar; pysolar.use_math(); pysolar.use_numpy()",
             "import pysolar.solar as s, datetime as d; s.get_position(1, 2, d.datetime(2020, 1, 1, tzinfo=d.timezone.utc))", "import pysolar.util as u, datetime as d; u.get_sunrise_sunset(50, 2, d.datetime(2020, 1, 1, tzinfo=d.timezone.utc))",
             "import pysolar.radiation as r, datetime as d; r.get_radiation_direct(d.datetime(2020, 1, 1, tzinfo=d.timezone.utc), -3.0)"]
    flags = [["-W", "error"], ["-W", "error", "-O"], ["-W", "error", "-OO"], ["-X", "dev", "-W", "error"], ["-W", "error", "-X", "utf8=0"], ["-bb", "-W", "error"]]
    ps = [[n, c, b, s] for s in prior.STATES for n in functions.ALL for c in functions.some(n, 12 if th else 2, 4) for b in api.BACKENDS]
    # the same with the moments at which the library warns, or is before its tables
    for s in prior.STATES:
        for n, i in functions.DATED.items():
            for c in functions.some(n, 3 if th else 1, 4):
                for w in (D.W(2040, 5, 6), D.W(1960, 2, 3)) + ((D.W(9999, 12, 31), D.W(1, 1, 2), D.W(2026, 7, 1)) if th else ()):
                    ps.append([n, c[:i] + [w] + c[i + 1:], api.BACKENDS[len(ps) % 2], s])
        for h in (10999.0, 11001.0, 20000.0):
            ps.append(["elevation.get_pressure_with_elevation", [h], "math", s])
    pi = [["%s" % c, f, s] for c in (codes if th else [codes[0], codes[5], codes[6]]) for f in ([], ["-O"])[:2 if th else 1] for s in prior.STATES]
    return [Space("prior states", ps, prior_states, chunk=200), Space("imports in prior states", pi, untouched, chunk=4), Space("imports", [[c, f] for c in codes for f in flags], fresh, chunk=4),
            Space("settings around imports", [[c, f] for c in codes for f in ([], ["-O"], ["-X", "dev"])], untouched, chunk=2), Space("others", [[k, b] for k in ("simulate", "abandoned simulation", "naive", "none", "text", "use_math", "use_numpy", "range") for b in api.BACKENDS], others),
            Space("arrays", [[x] for x in ARRAYS], arrays), Space("calls", cs, calls, chunk=150)]
