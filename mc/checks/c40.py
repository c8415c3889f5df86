"""Process environments, enumerated: system time zone x date on the system clock (shifted by a preloaded stand-in for the clock functions) x interpreter flags, hash seed and locale x calling context
(other threads, event loops, garbage collection at every allocation, deep stacks, other directories) and forms of installation (archive, byte code only, links, strange names; no streams, no arguments, no directory, no main module).  Every public function gives, in each of them, what it gives in the plain one."""
import compileall
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from .. import core, domains as D, functions
from ..core import Space, Outcome
from .. import api
from . import c32

PROP = "C40"
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-12>12", "<+14>-14", "<-0930>9:30", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "IST-1GMT0,M10.5.0,M3.5.0/1",
         "<+24>-24", "<-24>24", "XXX-0:00:01", "YYY23:59:59"]
# dates the system clock may show
CLOCKS = [86400, 68169599, 946684800 - 1, 1456704000, 1483228799, 1735689600, 1782864000, 2147483648, 4102444800, 7258118400]
CONTEXTS = ["zone:" + z for z in ZONES] + ["thread", "asyncio", "asyncio:executor", "gc", "deep:100", "deep:400", "cwd:/", "cwd:/tmp", "generator", "tracing:profile", "tracing:trace"]
FLAGS = [[], ["-O"], ["-OO"], ["-E"], ["-s"], ["-I"], ["-X", "utf8=1"], ["-X", "dev"], ["-X", "int_max_str_digits=640"], ["-u"]]
ENVS = [dict(PYTHONHASHSEED="0"), dict(PYTHONHASHSEED="1"), dict(PYTHONHASHSEED="4294967295"), dict(LC_ALL="C"), dict(LC_ALL="POSIX", LANG="de_DE.UTF-8"), dict(LC_ALL="C.utf8"), dict(LC_NUMERIC="de_DE.UTF-8"),
        dict(TZ="EST5EDT,M3.2.0,M11.1.0"), dict(TZ="<+14>-14"), dict(TZ="No/Such_Zone"), dict(TZ=""), dict(HOME="/nonexistent", USER="nobody"), dict(OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="4"),
        dict(PYTHONOPTIMIZE="2"), dict(PYTHONMALLOC="debug"), dict(PYTHONIOENCODING="latin-1"), dict(COLUMNS="20"), dict(NPY_PROMOTION_STATE="weak"), {"-": "PATH HOME USER LANG TZ"}]


def install(form, d):
    """the package in another form, for sys.path"""
    skip = shutil.ignore_patterns("__pycache__", "*.ipynb", "*.pyi")
    kind, _, arg = form.partition(":")
    src = os.path.join(core.REPO, "pysolar")
    if kind == "zip":
        shutil.copytree(src, os.path.join(d, "x", "pysolar"), ignore=skip)
        if arg == "bytecode":
            only_bytecode(os.path.join(d, "x", "pysolar"), -1)
        return shutil.make_archive(os.path.join(d, "p"), "zip", os.path.join(d, "x"), "pysolar")
    top = os.path.join(d, arg if kind == "named" else "lib")
    shutil.copytree(src, os.path.join(top, "elsewhere" if kind == "symlink" else "pysolar"), ignore=skip)
    if kind == "symlink":
        os.symlink("elsewhere", os.path.join(top, "pysolar"))
    if kind == "bytecode":
        only_bytecode(os.path.join(top, "pysolar"), int(arg))
    return top


def only_bytecode(folder, level):
    compileall.compile_dir(folder, quiet=1, legacy=True, optimize=level)
    for f in os.listdir(folder):
        if f.endswith(".py"):
            os.remove(os.path.join(folder, f))


FORMS = ["zip", "zip:bytecode", "bytecode:0", "bytecode:1", "bytecode:2", "symlink", "named:a b", "named:\u00fc\u4e2d", "named:pysolar", "named:site-packages", "named:lib.zip"]
STARTS = ["streams", "argv", "directory", "main", "streams argv directory main"]


def child(jobs, contexts, flags=(), env=None, shift=None, form=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYSOLAR_REPO=core.REPO, TZ="UTC")
    d = None
    for k, v in (env or {}).items():
        if k == "-":
            for x in v.split():
                e.pop(x, None)
        else:
            e[k] = v
    try:
        if form is not None:
            d = tempfile.mkdtemp(prefix="c40-")
            e["PYSOLAR_REPO"] = install(form, d)
        if shift is not None:
            d = tempfile.mkdtemp(prefix="c40-")
            so = os.path.join(d, "clock.so")
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(core.VERIF, "mc", "c", "clock.c"), "-ldl"], check=True, capture_output=True)
            e.update(LD_PRELOAD=so, MC_CLOCK_SHIFT=str(shift))
        p = subprocess.run([sys.executable, "-B"] + list(flags) + [os.path.join(core.VERIF, "mc", "environ.py")], input=json.dumps(dict(jobs=jobs, contexts=contexts)), capture_output=True, text=True, timeout=220, cwd=core.VERIF, env=e)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    if p.returncode:
        return None, p.stderr[-600:]
    return json.loads(p.stdout), None


def plain(jobs):
    from .. import environ
    return json.loads(json.dumps(environ.evaluate(jobs)))


def equal(name, a, b):
    if a == b or a[1] != b[1] or "raise" in (a[0][0], b[0][0]):
        return a == b or a[1] == b[1] and a[0][:2] == b[0][:2] and a[0][2:] == b[0][2:]
    return close(a[0], b[0]) if name.startswith("simulate.") else c32.equal(name, a[0], b[0])


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    try:
        return a == b or abs(float(a) - float(b)) <= 1e-9
    except (TypeError, ValueError):
        return False


def judge(out, c, jobs, want, got, err):
    """one environment, all of its contexts"""
    if got is None:
        out.fail(c, "the interpreter ended: %s" % err)
        return
    out.call(got["count"])
    bad = next(("%s%r gives %r, plainly %r" % (j[0], tuple(j[1]), g, w) for j, g, w in zip(jobs, got["base"], want) if not equal(j[0], g, w)), None)
    bad = bad or next(("%s%r gives %r in context %s, else %r" % (jobs[i][0], tuple(jobs[i][1]), x, ctx, got["base"][i]) for ctx, i, x in got["differ"] if not equal(jobs[i][0], x, got["base"][i])), None)
    if bad:
        out.fail(c, bad)
    else:
        out.ok(got["count"])


def clocks(cases):
    """[date on the clock as seconds since 1970, contexts, jobs]"""
    out = Outcome()
    for c in cases:
        target, contexts, jobs = c
        got, err = child(jobs, contexts, shift=int(target - time.time()))
        if got is not None and abs(got["seen"]["now"] - target) > 86400:
            got = None      # reported as not covered, not as a violation
            out.extra["clock stand-in without effect"] = out.extra.get("clock stand-in without effect", 0) + 1
            continue
        judge(out, [target, contexts, jobs[:1]], jobs, plain(jobs), got, err)
    return out


def environments(cases):
    """[flags, environment, contexts, jobs]"""
    out = Outcome()
    for c in cases:
        flags, env, contexts, jobs = c
        got, err = child(jobs, contexts, flags, env)
        want = plain(jobs)
        judge(out, [flags, env, contexts, jobs[:1]], jobs, want, got, err)
        first = got
        # variables that the library itself asks for, with every value of a small alphabet
        for key in (got["asked"][:4] if got and not flags and not env else ()):
            for v in VALUES:
                got, err = child(jobs, [], flags, {"-": key} if v is None else {key: v})
                judge(out, [flags, {key: v}, [], jobs[:1]], jobs, want, got, err)
        # names that it looks for in other modules, and files that it looks for
        if first and not flags and not env:
            for m, a in first["attrs"][:6]:
                for v in (1, 0, "x", None):
                    got, err = child(jobs, [], env=dict(MC_SETUP=json.dumps(["attr", m, a, v])))
                    judge(out, [[], {a: v}, [], jobs[:1]], jobs, want, got, err)
            for f in first["files"][:6]:
                for text in TEXTS:
                    with tempfile.TemporaryDirectory(prefix="c40-") as d:
                        p = os.path.join(d, "x")
                        if text == "/":
                            os.mkdir(p)
                        elif text is not None:
                            with open(p, "w") as h:
                                h.write(text)
                        got, err = child(jobs, [], env=dict(MC_SETUP=json.dumps(["file", f, p])))
                    judge(out, [[], {f: text}, [], jobs[:1]], jobs, want, got, err)
    return out


def installs(cases):
    """[form of the package, what the process lacks at the start, jobs]"""
    out = Outcome()
    for c in cases:
        form, start, jobs = c
        got, err = child(jobs, [], env=dict(MC_START=start) if start else None, form=form)
        judge(out, [form, start, jobs[:1]], jobs, plain(jobs), got, err)
    return out


TEXTS = [None, "", "1\n", "math\n", "{}", "/"]     # no file; a folder
VALUES = [None, "", "0", "1", "300", "-1.5", "math", "numpy", "true", "/"]
TIMES = [D.W(2040, 7, 1), D.W(2016, 3, 27, 1, 30), D.W(2016, 10, 30, 1, 30), D.W(2015, 12, 31, 23, 59, 59), D.W(1969, 12, 31, 12), D.W(2016, 3, 13, 7, 15), D.W(2016, 11, 6, 6, 30, 0, 0, -18000), D.W(2016, 1, 1, 0, 30, 0, 0, 3600),
         D.W(1970, 1, 1), D.W(2016, 6, 30, 23, 30, 0, 0, 20700), D.W(2026, 7, 2), D.W(2020, 2, 29, 20, 0, 0, 0, 50400)]


def alphabet(n, nt):
    jobs = []
    for name in functions.ALL:
        cs = functions.some(name, n, n)
        if name in functions.DATED:
            i = functions.DATED[name]
            cs = cs[:n // 2] + [[w if k == i else x for k, x in enumerate(cs[0])] for w in TIMES[:nt]] + [[[2020, 6, 21, 12, 0, 0, 0, None] if k == i else x for k, x in enumerate(cs[0])]]
        elif name == "elevation.get_pressure_with_elevation":
            cs = cs + [x for x in functions.cases(name, 0) if x[0] > 11000][:1]
        jobs += [[name, c, b] for j, c in enumerate(cs) for b in api.BACKENDS]
    for name in ("simulate.simulate_span", "simulate.datetime_range"):
        jobs += [[name, [la, lo, w, 240, s], b] for la, lo, s in ((52.0, 13.0, 30), (-30.0, 151.0, 37.5)) for w in TIMES[:nt // 3] + [[2020, 6, 21, 12, 0, 0, 0, None]] for b in api.BACKENDS]
    return jobs


def spaces(tier):
    th = tier == "thorough"
    jobs = alphabet(*(16, 12) if th else (4, 12))
    parts = [jobs[i::4] for i in range(4)]
    small = alphabet(4 if th else 2, 12 if th else 5)
    env = [[[], {}, [c for j, c in enumerate(CONTEXTS) if j % 4 == k], p] for p in parts for k in range(4)]
    env += [[f, {}, [], small] for f in FLAGS[1:]] + [[[], e, [], small] for e in ENVS]
    if th:
        env += [[f, e, [], small] for f in FLAGS[1:] for e in ENVS]
    ins = [[f, None, small] for f in FORMS] + [[None, x, small] for x in STARTS] + ([[f, x, small] for f in FORMS for x in STARTS] if th else [])
    ck = [[t, ["zone:" + z for z in (ZONES if th else [ZONES[i % len(ZONES)]])], small] for i, t in enumerate(CLOCKS)]
    return [Space("installations", ins, installs, chunk=1, describe=lambda c: [c[0], c[1], "%d calls" % len(c[2])]), Space("clocks", ck, clocks, chunk=1, describe=lambda c: [c[0], c[1], "%d calls" % len(c[2])]),
            Space("environments", env, environments, chunk=1, describe=lambda c: [c[0], c[1], c[2], "%d calls" % len(c[3])])]
