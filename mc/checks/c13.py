"""Explicit-state exploration of call histories on the real library.  A state is the canonical picture of everything the library keeps
(mc/state.py); every operation of an alphabet is executed from every reachable state until no new state appears, and each result is
compared with the same call in a pristine process.  Independent of that merging, all ordered pairs (and triples in the colliding
families) of calls are executed unmerged.  Arguments and published tables must come out unmodified."""
import itertools
import time

from .. import functions
from ..core import Space, Outcome, CHUNK_SECONDS
from .. import api, ops, state

PROP = "C13"
ASSUMPTIONS = ["histories are made of the enumerated operations", "states are merged only when the complete module-level state of the package is identical; "
               "caches that cannot be looked into are never merged", "numbers compared to 1e-11 relative"]


def _one(op, backend):
    api.backend(backend)
    return ops.run_loud(op)[0]


_fresh = {}


def fresh(op, backend):
    k = repr(op), backend
    if k not in _fresh:
        _fresh[k] = state.forked(_one, op, backend)
    return _fresh[k]


def _history(hist, backend):
    """run a history in this (forked) process"""
    api.backend(backend)
    t0 = state.tables()
    res = []
    ops.KEPT = []
    for op in hist:
        r, bad = ops.run_loud(op)
        res.append((r, bad))
    bad = ops.changed_later()
    if bad:
        res[-1] = (res[-1][0], res[-1][1] or bad)
    t1 = state.tables()
    changed = [k for k in t0 if t1.get(k) != t0[k]]
    changed = [k for k in changed if k != "pysolar.constants.aberration_coeffs"]
    return res, changed


def _compare(out, case, hist, expected, backend, got=None):
    try:
        res, changed = got or state.forked(_history, hist, backend)
    except state.Gone as e:
        out.fail(case, "after %r: %s" % (hist, str(e)[-300:]))
        return
    out.call(len(hist))
    for i, (op, (r, bad)) in enumerate(zip(hist, res)):
        if bad:
            out.fail(case, bad + " in %r" % (op,))
            return
        if not state.same(r, expected[i]):
            out.fail(case, "%r after %r (backend %s): %r, on its own: %r" % (op, hist[:i] if i < 4 else "%d calls, last %r" % (i, hist[i - 3:i]), backend, r, expected[i]))
            return
    if changed:
        out.fail(case, "after %r the published tables %r are modified" % (hist[-3:], changed))
        return
    out.ok()


def sequences(cases):
    """unmerged histories; case: [backend, history]"""
    out = Outcome()
    for c in cases:
        backend, hist = c
        try:
            exp = [fresh(op, backend) for op in hist]
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
            continue
        _compare(out, c, hist, exp, backend)
    return out


def weave(cases):
    """case: [backend, family name or None, index of a]: history a b1 a b2 a b3 ... covers all ordered pairs with a, without returning to the pristine state"""
    out = Outcome()
    for c in cases:
        backend, fam, i = c
        al = ALPHA[fam]
        a = al[i]
        hist = [a]
        for b in al:
            hist += [b, a]
        try:
            exp = [fresh(op, backend) for op in hist]
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
            continue
        _compare(out, c, hist, exp, backend)
    return out


ALPHA = {}


def _explore_step(hist, op, backend):
    api.backend(backend)
    for h in hist:
        ops.run(h)
    t0 = state.tables()
    r, bad = ops.run_loud(op)
    t1 = state.tables()
    changed = [k for k in t0 if t1.get(k) != t0[k] and k != "pysolar.constants.aberration_coeffs"]
    return r, bad, changed, state.canonical()


def explore(cases):
    """case: [backend, family, cap on states, cap on depth]: breadth-first search over library states"""
    out = Outcome()
    for c in cases:
        backend, fam, cap, depth = c
        al = ALPHA[fam]
        start = state.forked(lambda: (api.backend(backend), state.canonical())[1])
        seen = {start[0]: []}
        front = [[]]
        edges = 0
        closed = True
        until = time.monotonic() + CHUNK_SECONDS * 0.4  # only a library whose states cannot be told apart gets there; the search then counts as not closed
        try:
            exp = [fresh(op, backend) for op in al]
            while front:
                nxt = []
                for hist in front:
                    if time.monotonic() > until:
                        closed = False
                        raise StopIteration
                    for op, e in zip(al, exp):
                        r, bad, changed, (dig, opaque) = state.forked(_explore_step, hist, op, backend)
                        edges += 1
                        out.call()
                        if bad or changed or not state.same(r, e):
                            out.fail(c, "%r after %r (backend %s): %s" % (op, hist, backend, bad or changed and "modifies %r" % changed or "%r, on its own: %r" % (r, e)))
                            raise StopIteration
                        out.ok()
                        key = dig if not opaque else dig + repr(hist + [op])
                        if key not in seen:
                            if len(hist) + 1 > depth or len(seen) >= cap:
                                closed = False
                                continue
                            seen[key] = hist + [op]
                            nxt.append(hist + [op])
                front = nxt
        except StopIteration:
            pass
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
        out.extra["library_states"] = out.extra.get("library_states", 0) + len(seen)
        out.extra["state_graph_edges"] = out.extra.get("state_graph_edges", 0) + edges
        out.extra["searches_closed"] = out.extra.get("searches_closed", 0) + closed
    return out


def pump(cases):
    """case: [backend, function, n]: n different calls in between (more than any small cache holds), then the first ones again"""
    out = Outcome()
    for c in cases:
        backend, name, n = c
        al = ops.family(name)[:6]
        filler = [["call", name, ops.special(name, [2001 + k // 300, 1 + k // 28 % 12, 1 + k % 28, k % 24, (k * 7) % 60, 0, 0, 0])] for k in range(n)] if name in api.TIMED else []
        try:
            exp = [fresh(op, backend) for op in al]
            res, changed = state.forked(_history, al + filler + al, backend, seconds=200)
        except state.Gone as e:
            out.fail(c, str(e)[-400:])
            continue
        out.call(len(res))
        for op, (r, bad), e in zip(al + al, res[:len(al)] + res[-len(al):], exp + exp):
            if bad or not state.same(r, e):
                out.fail(c, "%r in a history with %d other calls: %s" % (op, n, bad or "%r, on its own %r" % (r, e)))
                break
        else:
            if changed:
                out.fail(c, "tables modified: %r" % changed)
            else:
                out.ok()
    return out


def spaces(tier):
    th = tier == "thorough"
    fams = [n for n in functions.ALL]
    for n in fams:
        ALPHA[n] = ops.family(n)
    ALPHA["all"] = ops.everything()
    wide = [o for n in ops.WIDE for o in (ops.family(n) if th else ops.family(n)[:: 4])]
    ALPHA["wide"] = wide
    both = ["numpy", "math"]
    ex = [[b, "all", 40, 4] for b in both] + [[b, n, 12, 3] for n in (fams if th else ops.WIDE) for b in (both if th else both[:1])]
    wv = [[b, "all", i] for b in both for i in range(len(ALPHA["all"]))]
    wv += [[b, n, i] for n in fams for b in (both if th else both[:1]) for i in range(len(ALPHA[n]))]
    wv += [["numpy", "wide", i] for i in range(len(wide))]
    pairs = []
    for n in ops.WIDE:
        al = ALPHA[n] if th else ALPHA[n][:24]
        for b in both[:2 if th else 1]:
            pairs += [[b, [x, y]] for x in al for y in al]
    small = ops.everything()[::6 if not th else 3] + ops.SIMS[:1]
    triples = [["numpy", list(t)] for t in itertools.product(small, repeat=3)] if th else []
    for n in ("solar.get_position", "util.get_sunrise_sunset_transit", "solar.get_altitude_fast", "radiation.get_radiation_direct"):
        al = ALPHA[n][::2 if th else 4]
        triples += [["math", list(t)] for t in itertools.product(al, repeat=3)]
    pumps = [[b, n, k] for n in (api.TIMED if th else ops.WIDE) for b in both for k in ((300, 3000) if th else (300,))]
    return [Space("pairs", pairs, sequences, chunk=60, note="all ordered pairs of colliding calls, each from a pristine process"),
            Space("reachable states", ex, explore, chunk=1, note="library states merged by their canonical picture"),
            Space("weaves", wv, weave, chunk=8, note="a b a c a d ... for every a: all ordered pairs adjacent in long histories"),
            Space("triples", triples, sequences, chunk=60), Space("long histories", pumps, pump, chunk=2)]
