"""The table generator as a state machine over records: every sequence of consecutive months from each starting month up to a length, and every sequence with one or two
faults (gap, repetition, reversal, wrong day, year jump) at every position, is fed to the real script; acceptance, output and - in a scratch copy of the package that carries
the generated table - the lookup of every month are compared with the model.  A subset also runs as a separate process (exit status, output)."""
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import core, domains as D, state
from ..core import Space, Outcome

PROP = "C30"
SCRIPT = os.path.join(core.REPO, "util", "get_delta_t")
FAULTS = ["repeat", "skip", "back", "day", "year", "jan", "prevyear", "dayend"]
VALUES = [43.4724, 0.0, 63.82854, 69.12345678, -0.00004, 5.5, 100, 12.34565, 54.0871, 37.64, -6.64, 1e-3]


def sequence(start, n, faults):
    """records [year, month, day, value]; faults: {position: kind} apply to the move leading to that position"""
    y, m = start
    res = []
    faults = dict((int(k), v) for k, v in faults)
    for i in range(n):
        d = 1
        k = faults.get(i)
        if i and k not in ("repeat", "back"):
            y, m = (y, m + 1) if m < 12 else (y + 1, 1)
        if k == "skip":
            y, m = (y, m + 1) if m < 12 else (y + 1, 1)
        elif k == "back":
            y, m = (y, m - 1) if m > 1 else (y - 1, 12)
        elif k == "day":
            d = 2
        elif k == "dayend":
            d = 28
        elif k == "year":
            y += 1
        elif k == "prevyear":
            y -= 1
        elif k == "jan":
            y, m = y + 1, 1
        res.append([y, m, d, VALUES[(i * 5 + m) % len(VALUES)] + (i if i % 3 else 0)])
    return res


def acceptable(recs):
    """the model: consecutive months, each on the first day"""
    return all(r[2] == 1 for r in recs) and all(12 * b[0] + b[1] == 12 * a[0] + a[1] + 1 for a, b in zip(recs, recs[1:]))


def text(recs, style):
    if style == 0:
        return "".join(" %d  %d  %d  %8.5f \n" % tuple(r) for r in recs)
    if style == 1:
        return "\n".join("%d %02d %02d\t%r" % (r[0], r[1], r[2], float(r[3])) for r in recs)
    if style == 3:  # as other systems end lines
        return "".join("%d  %d  %d  %.6f\r\n" % tuple(r) for r in recs)
    if style == 4:
        return "".join("\t%04d\t%d\t%02d\t%.9e\t \n" % tuple(r) for r in recs)
    if style == 5:
        return "".join("+%d %d +%d   %+.7f  \f\n" % tuple(r) for r in recs)
    return "\n\n   " + "\n\n".join("%d   %d %d   %r" % tuple(r) for r in recs) + "\n \n\n"


_code = {}


def generate(data, d):
    """run the script's code in this process: ('ok', output) or ('raise', ...)"""
    if SCRIPT not in _code:
        with open(SCRIPT, encoding="utf-8") as f:
            _code[SCRIPT] = compile(f.read(), SCRIPT, "exec")
    path = os.path.join(d, "deltat.data")
    with open(path, "w", newline="") as f:
        f.write(data)
    argv, buf = sys.argv, io.StringIO()
    sys.argv = [SCRIPT, path]
    try:
        with contextlib.redirect_stdout(buf):
            exec(_code[SCRIPT], {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": __builtins__})
    except SystemExit as e:
        return ("ok", buf.getvalue()) if e.code in (None, 0) else ("raise", "SystemExit", repr(e.code))
    except Exception as e:  # noqa: BLE001
        return ("raise", type(e).__name__, str(e))
    finally:
        sys.argv = argv
    return ("ok", buf.getvalue())


def table(output):
    ns = {}
    exec(output, {"__builtins__": {}}, ns)
    return ns["delta_t_base_year"], ns["delta_t_base_month"], ns["delta_t"]


def expected(recs):
    rows = []
    for y, m, d, v in recs:
        if not rows or rows[-1][0] != y:
            rows.append((y, []))
        rows[-1][1].append(v)
    return recs[0][0], recs[0][1], [r for _, r in rows]


def judge(recs, r, used):
    """None or a message"""
    if not acceptable(recs):
        return None if r[0] == "raise" else "accepted a sequence that is not consecutive monthly records"
    if r[0] != "ok":
        return "refused a good sequence: %r" % (r[1:],)
    try:
        by, bm, rows = table(r[1])
    except Exception as e:  # noqa: BLE001
        return "output is not a table: %r" % (e,)
    ey, em, erows = expected(used)
    if (by, bm) != (ey, em) or [len(x) for x in rows] != [len(x) for x in erows]:
        return "base %r, rows of %r; expected base %r, rows of %r" % ((by, bm), [len(x) for x in rows], (ey, em), [len(x) for x in erows])
    for row, erow in zip(rows, erows):
        for a, b in zip(row, erow):
            if abs(a - b) > 0.5e-4 + 1e-9 or abs(a * 1e4 - round(a * 1e4)) > 1e-6:
                return "record %r printed as %r" % (b, a)
    return None


def parsed(recs, style):
    """the values as they stand in the file"""
    return [[y, m, d, float({0: "%8.5f", 3: "%.6f", 4: "%.9e", 5: "%+.7f"}.get(style, "%r") % v)] for y, m, d, v in recs]


def machine(cases):
    """[start year, start month, length, faults, file style]"""
    out = Outcome()
    d = tempfile.mkdtemp(prefix="c30-")
    try:
        for c in cases:
            recs = sequence(c[:2], c[2], c[3])
            r = generate(text(recs, c[4]), d)
            out.call(len(recs))
            msg = judge(recs, r, parsed(recs, c[4]))
            if msg:
                out.fail(c, msg)
            else:
                out.ok()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def process(cases):
    """the same as a separate process"""
    out = Outcome()
    d = tempfile.mkdtemp(prefix="c30-")
    try:
        for c in cases:
            recs = sequence(c[:2], c[2], c[3])
            path = os.path.join(d, "x.data")
            with open(path, "w", newline="") as f:
                f.write(text(recs, c[4]))
            p = subprocess.run([sys.executable, "-B", SCRIPT, path], capture_output=True, text=True, timeout=60, cwd=d)
            r = ("ok", p.stdout) if p.returncode == 0 else ("raise", p.returncode, p.stderr[-300:])
            out.call(len(recs))
            msg = judge(recs, r, parsed(recs, c[4]))
            if msg:
                out.fail(c, msg)
            else:
                out.ok()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def with_table(output, d):
    """a scratch copy of the package whose solartime carries the generated table"""
    pkg = os.path.join(d, "pysolar")
    shutil.copytree(os.path.join(core.REPO, "pysolar"), pkg, ignore=shutil.ignore_patterns("__pycache__", "*.ipynb"))
    path = os.path.join(pkg, "solartime.py")
    with open(path, encoding="utf-8", newline="") as f:
        src = f.read()
    import ast
    spans = []
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("delta_t_base_year", "delta_t_base_month", "delta_t"):
            spans.append((node.lineno, node.end_lineno, node.targets[0].id))
    if {s[2] for s in spans} != {"delta_t_base_year", "delta_t_base_month", "delta_t"}:
        return None
    lines = src.split("\n")
    first = min(s[0] for s in spans)
    drop = {i for a, b, _ in spans for i in range(a, b + 1)}
    new = []
    for i, line in enumerate(lines, 1):
        if i == first:
            new += output.split("\n")
        if i not in drop:
            new.append(line)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write("\n".join(new))
    return d


def _lookup(c):
    import datetime
    recs = sequence(c[:2], c[2], [])
    d = tempfile.mkdtemp(prefix="c30-")
    try:
        r = generate(text(recs, c[4]), d)
        if r[0] != "ok":
            return 0, "refused: %r" % (r[1:],)
        if with_table(r[1], d) is None:
            return 0, "solartime does not define delta_t_base_year, delta_t_base_month and delta_t"
        for n in [n for n in sys.modules if n == "pysolar" or n.startswith("pysolar.")]:
            del sys.modules[n]
        sys.path.insert(0, d)
        import pysolar
        assert os.path.realpath(pysolar.__file__).startswith(os.path.realpath(d))
        f = pysolar.stime.get_delta_t
        n = 0
        vals = [round(x[3], 4) for x in parsed(recs, c[4])]
        first, last = recs[0], recs[-1]
        probes = [(y, m, v) for (y, m, _, _), v in zip(recs, vals)]
        for k in (1, 2, 5, 11, 12, 13, 25):
            i = 12 * first[0] + first[1] - 1 - k
            probes.append((i // 12, i % 12 + 1, vals[0]))
            i = 12 * last[0] + last[1] - 1 + k
            probes.append((i // 12, i % 12 + 1, vals[-1]))
        probes += [(1, 2, vals[0]), (9999, 12, vals[-1])]
        for y, m, v in probes:
            for day, clock, off in ((1, (0, 0, 0, 0), 0), (D.mlen(y, m), (23, 59, 59, 999999), 0), (15, (12, 0, 0, 0), 3600), (1, (1, 0, 0, 0), 3600 if y < 9999 else 0)):
                when = datetime.datetime(y, m, day, *clock, tzinfo=datetime.timezone(datetime.timedelta(seconds=off)))
                x = f(when)
                n += 1
                if not abs(x - v) <= 0.51e-4:
                    return n, "table from %d-%02d with %d records: delta T at %s is %r, record %r" % (first[0], first[1], len(recs), when, x, v)
        return n, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def lookup(cases):
    """[start year, start month, length, [], style]: generate, install in a scratch copy, look every month up"""
    out = Outcome()
    for c in cases:
        try:
            n, msg = state.forked(_lookup, c)
        except state.Gone as e:
            n, msg = 0, "lookup failed: %s" % e
        out.call(n + 1)
        if msg:
            out.fail(c, msg)
        else:
            out.ok(n)
    return out


def spaces(tier):
    th = tier == "thorough"
    good, one, two, k = [], [], [], 0
    for m in range(1, 13):
        for n in range(1, 61 if th else 41):
            for st in range(6):
                if th or st < 3 or n in (1, 2, 3, 11, 12, 13, 14, 24, 25, 26, 37):
                    good.append([1973 if m % 2 else 1899, m, n, [], st])
            for y in (1, 9, 68, 69, 99, 100, 999, 1000, 9990, 9999, 10000, 99999):
                if n in (2, 13, 14, 26):
                    good.append([y, m, n, [], (y + m) % 6])
    for m in range(1, 13):
        for n in range(1, 31 if th else 27):
            for pos in range(n):
                for f in FAULTS:
                    if pos == 0 and f not in ("day", "dayend"):
                        continue
                    k += 1
                    one.append([2000, m, n, [[pos, f]], k % 3])
    for m in (range(1, 13) if th else (1, 2, 7, 11, 12)):
        for n in ((2, 3, 5, 9, 13, 14, 18, 25) if th else (3, 13, 14)):
            for a in range(n):
                for b in range(a + 1, n):
                    for f in FAULTS:
                        for g in FAULTS:
                            if a == 0 and f not in ("day", "dayend"):
                                continue
                            k += 1
                            two.append([1999, m, n, [[a, f], [b, g]], k % 3])
    # real tables span years: nothing is required of the lookup in one that ends within the year it starts in
    look = [[1973, m, n, [], n % 3] for m in range(1, 13) for n in (range(12, 49) if th else sorted({(12, 14, 24, 26)[m % 2 * 2], (13, 23, 25, 37)[m % 4], 24 - m + 1, 25 - m, 26 - m})) if n > 12 - m + 1]
    proc = good[:40:8] + good[-3:] + one[::max(1, len(one) // 12)] + two[::max(1, len(two) // 8)]
    return [Space("good sequences", good, machine, chunk=60), Space("separate process", proc, process, chunk=3), Space("one fault", one, machine, chunk=300), Space("lookup of generated tables", look, lookup, chunk=6),
            Space("two faults", two, machine, chunk=400)]
