"""Explicit-state exploration of backend histories: every sequence of switches (through both doors) and calls up to a depth, on the real
library; after each one a battery of calls covering every public function (scalars and arrays) must behave exactly, types included, as in a
pristine process in which only the last switch was made."""
import itertools
import time

from .. import functions
from ..core import Space, Outcome, CHUNK_SECONDS
from .. import api, ops, state

PROP = "C12"
ASSUMPTIONS = ["histories are made of the enumerated events", "numbers compared to 1e-11 relative, types exactly"]
DOORS = {"M": lambda: api.pysolar.use_math(), "N": lambda: api.pysolar.use_numpy(), "m": lambda: api.numeric.use_math(), "n": lambda: api.numeric.use_numpy()}
POS = ["call", "solar.get_position", ops.special("solar.get_position")]
EVENTS = {"p": POS, "a": ["call", "solar.get_position", ops.ARR["solar.get_position"]], "f": ["call", "solar.get_azimuth_fast", ops.special("solar.get_azimuth_fast")],
          "F": ["call", "solar.get_altitude_fast", ops.ARR["solar.get_altitude_fast"]], "r": ["call", "radiation.get_radiation_direct", ops.ARR["radiation.get_radiation_direct"]],
          "s": ops.SIMS[0], "x": ["call", "solar.get_position", ops.special("solar.get_position", ["naive", [2016, 1, 1]])],
          "u": ["call", "util.get_sunrise_sunset_transit", ops.special("util.get_sunrise_sunset_transit")], "R": ["call", "rest.get_optical_mass_water", [30.0]]}
ARRAY_ONLY = ("solar.get_position", "solar.get_altitude", "solar.get_azimuth", "solar.get_topocentric_position")
BATTERY = [["call", n, functions.cases(n, 1)[0]] for n in functions.ALL] + [["call", n, ops.ARR[n]] for n in ops.ARR] + ops.SIMS[:2] + \
    [["call", "solar.get_topocentric_position", [["arr", [10.0, 20.0]], 0.0, ops.T, 0.0]], ["call", "solar.get_azimuth", [10.0, 0.0, ops.T, ["arr", [10.0, 20.0]]]],
     ["call", "solar.get_altitude", [10.0, 0.0, ops.T, 0.0, ["arr", [280.0, 290.0]], 101325.0]], ["call", "solar.get_altitude", [-89.0, 0.0, ops.T, 0.0, 288.15, 101325.0]],
     ["call", "radiation.get_radiation_direct", [ops.T, -3.0]], ["call", "solar.get_azimuth_fast", [-40.0, 100.0, ops.T]],
     ["call", "solar.get_hour_angle", [["dt64", ["2016-03-20T15:20:03"]], 3.0]]] + ops.BAD


def play(hist, battery=True):
    for e in hist:
        if e in DOORS:
            DOORS[e]()
        elif e == "B":
            for op in BATTERY:
                ops.run(op)
        else:
            ops.run(EVENTS[e])
    if not battery:
        return None
    res = [ops.run(op)[0] for op in BATTERY]
    return [r if r[0] == "ok" else ["raise", r[1]] for r in res], api.numeric.current_mod


def last(hist):
    return next((e.upper() for e in reversed(hist) if e in DOORS), "")


def placed(op):
    """a precise position asked for several places at once"""
    return op[1] in ARRAY_ONLY and any(isinstance(a, list) and a and a[0] in ("arr", "iarr") and p in ("latitude_deg", "longitude_deg", "elevation")
                                       for a, p in zip(op[2], api.TIMED[op[1]]))


_ref = {}


def reference(mode):
    """battery in pristine processes, one call each, after nothing but the one switch"""
    if mode not in _ref:
        def one(op):
            if mode:
                DOORS[mode]()
            r = ops.run(op)[0]
            return r if r[0] == "ok" else ["raise", r[1]]
        _ref[mode] = [state.forked(one, op) for op in BATTERY]
    return _ref[mode]


def scalar(p):
    """only plain Python numbers in a picture of a result"""
    if isinstance(p, list):
        if len(p) == 2 and isinstance(p[0], str) and isinstance(p[1], (float, bool)):
            return p[0] in ("float", "int", "bool")
        return all(scalar(x) for x in p)
    return True


def check(cases):
    out = Outcome()
    for c in cases:
        try:
            ref = reference(last(c))
            got, mod = state.forked(play, c)
        except state.Gone as e:
            out.fail(c, str(e)[-500:])
            continue
        out.call(len(c) + len(got))
        bad = None
        for op, g, r in zip(BATTERY, got, ref):
            if not state.same(g, r, types_too=True):
                bad = "after %s, %r gives %r; in a pristine process with only the last switch: %r" % ("".join(c) or "nothing", op, g, r)
                break
            if last(c) == "M" and g[0] == "ok":
                arrays = any(isinstance(a, list) and a and a[0] in ("arr", "iarr") for a in op[2])
                if not arrays and not scalar(g):
                    bad = "math backend: %r gives %r, not a plain number" % (op, g)
                if placed(op):
                    bad = "math backend: %r accepts arrays" % (op,)
            if last(c) == "M" and g[0] == "raise" and placed(op) and g[1][1] != "TypeError":
                bad = "math backend: %r raises %r" % (op, g)
            if bad:
                break
        if bad is None and mod != {"M": "math"}.get(last(c), "numpy"):
            bad = "numeric.current_mod is %r after %s" % (mod, "".join(c))
        if bad:
            out.fail(c, bad)
        else:
            out.ok()
    return out


def search(cases):
    """library states reachable by switches and calls, merged by their canonical picture; at each the battery is judged.  case: [depth, cap]"""
    out = Outcome()
    for depth, cap in cases:
        seen = {}
        front = [[]]
        closed = True
        until = time.monotonic() + CHUNK_SECONDS * 0.4
        while front and not out.fails:
            nxt = []
            for h in front:
                if time.monotonic() > until:
                    closed = False
                    break
                try:
                    dig, opaque = state.forked(lambda: (play(h, False), state.canonical())[1])
                except state.Gone as e:
                    out.fail([depth, cap], "%s: %s" % (h, str(e)[-300:]))
                    break
                key = (dig + repr(h) if opaque else dig, last(h))
                out.call(len(h))
                if key in seen:
                    continue
                seen[key] = h
                out.transitions += len(h)
                o = check([h])
                out.validated += o.validated
                out.fails += o.fails
                if len(h) < depth and len(seen) < cap:
                    nxt += [h + [e] for e in list(DOORS) + list(EVENTS)]
                else:
                    closed = False
            front = nxt
        out.extra["library_states"] = len(seen)
        out.extra["closed"] = int(closed)
        out.extra["representatives"] = sorted("".join(h) for h in seen.values())
    return out


def spaces(tier):
    th = tier == "thorough"
    ev = list(DOORS) + list(EVENTS) + ["B"]
    seqs = [list(s) for k in range(0, 4 if th else 3) for s in itertools.product(ev, repeat=k)]
    sw = [list(s) for k in range(3, 9 if th else 7) for s in itertools.product("MN", repeat=k)]
    mix = [list(s) for k in range(3, 6 if th else 4) for s in itertools.product("MNpaFB" if th else "MNpaB", repeat=k) if set(s) & set("MN")]
    return [Space("sequences", seqs, check, chunk=10), Space("switches only", sw, check, chunk=10), Space("switches and calls", mix, check, chunk=10),
            Space("reachable states", [[8, 60]], search, pool=False)]
