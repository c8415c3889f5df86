"""Shipped type stubs as a model of the interface: every call shape (number of positional arguments x set of keyword names, one too many and one unknown included) is bound against the
stub's and the real signature, the real functions are executed in every keyword/positional split over base arguments and their results compared with the declared kinds, and
declared constants with the real ones."""
import ast
import datetime
import glob
import inspect
import numbers
import os
import types

from .. import core, domains as D, functions
from ..core import Space, Outcome
from .. import api

PROP = "C33"


def stub(mod):
    """{function: (python function with the stub's signature, return annotation)}, {constant: annotation}"""
    path = os.path.join(core.REPO, "pysolar", mod + ".pyi")
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    funcs, consts = {}, {}
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            ret = ast.unparse(node.returns) if node.returns is not None else None
            node.returns = None
            for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]:
                a.annotation = None
            node.decorator_list = []
            ns = {}
            exec(compile(ast.fix_missing_locations(ast.Module([node], [])), path, "exec"), ns)
            funcs[node.name] = (ns[node.name], ret)
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
            consts[node.target.id] = ast.unparse(node.annotation)
    return funcs, consts


STUBS = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(core.REPO, "pysolar", "*.pyi")))
STUBS = [m for m in STUBS if m != "__init__"]


def fits(x, ann):
    """is the value of the declared kind?"""
    import numpy as np
    ann = ann.replace("typing.", "")
    if ann is None or ann == "Any":
        return True
    if ann == "None":
        return x is None
    if ann == "float":
        return isinstance(x, numbers.Real) and not isinstance(x, bool) or isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype.kind in "fiu"
    if ann == "int":
        return isinstance(x, numbers.Integral) and not isinstance(x, bool)
    if ann in ("str", "bool"):
        return type(x).__name__ == ann
    if ann == "datetime.datetime":
        return isinstance(x, datetime.datetime)
    t = ast.parse(ann, mode="eval").body
    if isinstance(t, ast.Subscript):
        base = ast.unparse(t.value)
        args = [ast.unparse(e) for e in t.slice.elts] if isinstance(t.slice, ast.Tuple) else [ast.unparse(t.slice)]
        if base in ("Tuple", "tuple"):
            return isinstance(x, tuple) and len(x) == len(args) and all(fits(v, a) for v, a in zip(x, args))
        if base in ("List", "list"):
            return isinstance(x, (list, tuple)) and all(fits(v, args[0]) for v in x)
        if base in ("Dict", "dict"):
            return isinstance(x, dict) and all(isinstance(k, str) and fits(v, args[1]) for k, v in x.items())
        if base in ("Callable", "collections.abc.Callable"):
            return callable(x) and (ast.unparse(t.slice.elts[0]) != "[float]" or all(fits(x(v), args[1]) for v in (0.0, -0.5, 2)))
        if base in ("Iterator", "Iterable", "Generator"):
            return hasattr(x, "__iter__") and all(fits(v, args[0]) for v in x)
        if base == "Optional":
            return x is None or fits(x, args[0])
        if base == "Union":
            return any(fits(x, a) for a in args)
    return True


def bound(f, npos, names):
    try:
        b = inspect.signature(f).bind(*["pos%d" % i for i in range(npos)], **{n: "kw " + n for n in names})
    except TypeError:
        return None
    return dict(b.arguments)


def shapes(cases):
    """[module, function, number of positional arguments]: all sets of keyword names"""
    out = Outcome()
    cache = {m: stub(m)[0] for m in {c[0] for c in cases}}
    for c in cases:
        mod, name, npos = c
        s = cache[mod][name][0]
        real = getattr(api.MODS[mod], name, None)
        if not isinstance(real, types.FunctionType) and not callable(real):
            out.fail(c, "declared in the stub, but %s.%s is %r" % (mod, name, real))
            continue
        names = list(inspect.signature(s).parameters)
        names += [n for n in inspect.signature(real).parameters if n not in names] + ["unknown"]
        bad = None
        for mask in range(1 << len(names)):
            kws = [n for i, n in enumerate(names) if mask >> i & 1]
            a, b = bound(s, npos, kws), bound(real, npos, kws)
            out.call()
            if a is not None and a != b:
                bad = "%d positional and %r: the stub binds %r, the function %r" % (npos, kws, a, b)
            elif a is None and b is not None:
                bad = "%d positional and %r: the function binds %r, the stub refuses" % (npos, kws, b)
            if bad:
                break
        if bad:
            out.fail(c, bad)
        else:
            out.ok(1 << len(names))
    return out


def results(cases):
    """[module, function, arguments, number of positional arguments, backend]"""
    out = Outcome()
    cache = {m: stub(m)[0] for m in {c[0] for c in cases}}
    for c in cases:
        mod, name, args, npos, b = c
        if name not in cache[mod]:
            continue
        api.backend(b)
        s, ret = cache[mod][name]
        names = list(inspect.signature(s).parameters)
        real = functions.arguments(mod + "." + name, args)
        f = getattr(api.MODS[mod], name, None)
        x = api.outcome(f, *real)
        y = api.outcome(lambda: f(*real[:npos], **dict(zip(names[npos:], real[npos:]))))
        out.call(2)
        if x[0] != y[0] or x[0] == "ok" and not api.close(x[1], y[1]) and repr(x) != repr(y):
            out.fail(c, "all positional: %r; %d positional and the rest by the stub's names: %r" % (x, npos, y))
        elif x[0] == "ok" and ret is not None and not fits(x[1], ret):
            out.fail(c, "returns %r (%s), declared %s" % (x[1], type(x[1]).__name__, ret))
        else:
            out.ok()
    return out


def constants(cases):
    """[module, constant, annotation]"""
    out = Outcome()
    for c in cases:
        x = getattr(api.MODS[c[0]], c[1], KeyError)
        out.call()
        if x is not None and (x is KeyError or not fits(x, c[2])):      # None: a table that is built on first use
            out.fail(c, "%s.%s is %s, declared %s" % (c[0], c[1], repr(x)[:80], c[2]))
        else:
            out.ok()
    return out


def tables(cases):
    """[module, function without parameters, constant that it builds or None]: the value, and the constant after the call, are of the declared kind"""
    out = Outcome()
    for c in cases:
        mod, name, const = c
        funcs, consts = stub(mod)
        r = api.outcome(getattr(api.MODS[mod], name))
        out.call()
        if r[0] != "ok" or not fits(r[1], funcs[name][1]):
            out.fail(c, "%s.%s() gives %.200r, declared %s" % (mod, name, r[1:], funcs[name][1]))
        elif const in consts and not fits(getattr(api.MODS[mod], const, None), consts[const]):
            out.fail(c, "%s.%s is %.200r after %s(), declared %s" % (mod, const, getattr(api.MODS[mod], const, None), name, consts[const]))
        else:
            out.ok()
    return out


def simulations(cases):
    """[function name, seconds per step, backend]: the iterators give the declared rows"""
    out = Outcome()
    for c in cases:
        name, step, b = c
        api.backend(b)
        s, ret = stub("simulate")[0][name]
        t0 = datetime.datetime(2016, 6, 1, 3, tzinfo=D.UTC)
        t1 = t0 + datetime.timedelta(hours=20)
        vals = dict(latitude_deg=42.0, longitude_deg=-71.0, horizon=[300] * 360, start_datetime=t0, end_datetime=t1, step_minutes=step, elevation=0.0, temperature=280.0, pressure=1e5)
        names = list(inspect.signature(s).parameters)
        r = api.outcome(lambda: list(getattr(api.simulate, name)(**{n: vals[n] for n in names})))
        out.call()
        if r[0] == "ok" and r[1] and fits(r[1], ret.replace("Iterator", "List", 1)):
            out.ok()
        else:
            out.fail(c, "rows %r, declared %s" % (r[1:] if r[0] != "ok" else r[1][:1], ret))
    return out


def spaces(tier):
    th = tier == "thorough"
    sh, co, re = [], [], []
    for m in STUBS:
        funcs, consts = stub(m)
        for n, (s, ret) in funcs.items():
            k = len(inspect.signature(s).parameters)
            sh += [[m, n, p] for p in range(0, k + 2)]
            if m + "." + n in functions.ALL:
                for i, args in enumerate(functions.some(m + "." + n, 400 if th else 60, 300 if th else 20)):
                    re.append([m, n, args, i % (k + 1), api.BACKENDS[i // (k + 1) % 2]])
        co += [[m, n, a] for n, a in consts.items()]
    si = [[f, st, b] for f in ("datetime_range", "simulate_span") for st in (30, 7.5, 240) for b in api.BACKENDS]
    ta = [["constants", "get_aberration_coeffs", k] for k in ("aberration_coeffs", None) if "get_aberration_coeffs" in stub("constants")[0]]
    return [Space("constants", co, constants), Space("tables", ta, tables), Space("call shapes", sh, shapes, chunk=20), Space("simulations", si, simulations), Space("results", re, results, chunk=300)]
