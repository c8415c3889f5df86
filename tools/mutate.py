"""Systematic source mutants of pysolar, for measuring the checks: mutate.py list | tests OUT | checks IN OUT [--all]

Every mutant is one textual change at one node of the syntax tree. "tests" keeps those that pass the repository's tests, "checks" runs the checks (the cheap and likely ones first)
against each until one reports a violation (--all: every check of the properties anchored in the mutated function), in scratch copies."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ProcessPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['pysolar/%s.py' % n for n in '__init__ constants elevation numeric radiation rest simulate solar solartime tzinfo_check util'.split()] + ['util/get_delta_t']
ENV = dict(os.environ, TZ='UTC', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONDONTWRITEBYTECODE='1')
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Mod: ('%', '//'), ast.FloorDiv: ('//', '/'), ast.Pow: ('**', '*')}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
SWAP = {'sin': 'cos', 'cos': 'sin', 'tan': 'sin', 'asin': 'acos', 'acos': 'asin', 'radians': 'degrees', 'degrees': 'radians', 'floor': 'ceil', 'min': 'max', 'max': 'min', 'atan': 'tan', 'exp': 'log'}


def mutants(f):
    src = open(os.path.join('/repo', f), 'rb').read()
    lines = src.split(b'\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    tree = ast.parse(src)
    pos = lambda l, c: starts[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: src[slice(*span(n))].decode()
    out = []

    def add(a, b, new, what, where, line):
        if src[a:b].decode() != new:
            out.append(dict(file=f, a=a, b=b, new=new, what=what, where=where, line=line, old=src[a:b].decode()))

    def visit(n, where, table):
        line = getattr(n, 'lineno', 0)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            where = (where + '.' if where else '') + n.name
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            cand = []
            if table:
                cand = [repr(v + 1) if isinstance(v, int) else repr(v * 1.01) if v else '0.01']
            elif isinstance(v, int):
                cand = [str(v + 1), '(%d)' % (v - 1)] + (['(%s * 1.001)' % v] if abs(v) > 2 else [])
            else:
                cand = [repr(v * 1.001) if v else '1e-6', repr(v * 1.1) if v else '0.1', '(-%r)' % v if v else '1.0']
            for c in cand:
                add(*span(n), c, 'const', where, line)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and not isinstance(getattr(n, 'up', None), ast.Expr):
            add(*span(n), repr(n.value + '_'), 'str', where, line)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(*span(n), str(not n.value), 'bool', where, line)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not table:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = src[a:b].decode()
            o, r = BIN[type(n.op)]
            if mid.count(o) == 1 or o in ('*', '/'):
                i = mid.index(o)
                add(a + i, a + i + len(o), r, 'op', where, line)
            add(*span(n), '(%s)' % text(n.left), 'left', where, line)
            add(*span(n), '(%s)' % text(n.right), 'right', where, line)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not table:
            add(*span(n), '(%s)' % text(n.operand), 'unary', where, line)
        if isinstance(n, ast.Compare):
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                a, b = span(l)[1], span(r)[0]
                for c in CMP[type(op)]:
                    add(a, b, ' %s ' % c, 'cmp', where, line)
                l = r
        if isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = src[a:b].decode()
            o, r = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if mid.count(o) == 1:
                i = mid.index(o)
                add(a + i, a + i + len(o), r, 'bool', where, line)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(*span(n.test), '(%s) is None' % text(n.test), 'never', where, line)
            add(*span(n.test), '(%s) is not Ellipsis' % text(n.test), 'always', where, line)
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            if name in SWAP:
                a, b = span(n.func)
                add(b - len(name), b, SWAP[name], 'func', where, line)
            args = list(n.args)
            for x, y in zip(args, args[1:]):
                add(span(x)[0], span(y)[1], text(y) + ', ' + text(x), 'swap', where, line)
            for i, x in enumerate(args[1:]):
                add(span(args[i])[1], span(x)[1], '', 'drop', where, line)
            if len(args) == 1 and not isinstance(args[0], ast.Starred):
                add(*span(n), '(%s)' % text(args[0]), 'unwrap', where, line)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Delete, ast.Assert)) and where and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(*span(n), 'pass', 'del', where, line)
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            o, r = BIN[type(n.op)]
            a, b = span(n.target)[1], span(n.value)[0]
            mid = src[a:b].decode()
            add(a, b, mid.replace(o, r), 'aug', where, line)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                a, b = span(d)
                add(a - 1, b, '', 'undecorate', where, line)
        tab = table or isinstance(n, (ast.List, ast.Tuple)) and len(list(ast.walk(n))) > 150
        for c in ast.iter_child_nodes(n):
            c.up = n
            visit(c, where, tab)
    visit(tree, '', False)
    for m in out:
        m['id'] = hashlib.sha1(('%(file)s %(a)d %(b)d %(new)s' % m).encode()).hexdigest()[:10]
    return out


_copy = None


def copy():
    global _copy
    if _copy is None:
        _copy = os.path.join(tempfile.mkdtemp(prefix='mut_'), 'r')
        shutil.copytree('/repo', _copy, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    return _copy


def apply(m, undo=False):
    p = os.path.join('/repo', m['file'])
    src = open(p, 'rb').read()
    if not undo:
        src = src[:m['a']] + m['new'].encode() + src[m['b']:]
    open(os.path.join(copy(), m['file']), 'wb').write(src)
    return src


def tests(m):
    try:
        compile(apply(m), 'x', 'exec')
        x = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=copy(), env=ENV, capture_output=True, text=True, timeout=60)
        return m, '90 passed' in x.stdout.strip().split('\n')[-1]
    except SyntaxError:
        return m, False
    except subprocess.TimeoutExpired:
        return m, False
    finally:
        apply(m, True)


COST = dict(zip(['C%02d' % i for i in range(1, 41)], [7, 5, 7, 3.6, 12, 1, 2.7, 6, 8.5, 2.5, 2.5, 10, 25, 31, 2.4, 2, 1.5, 3, 1, 2, 11, 1, .8, 3, 1, 2.3, 2.2, 2.2, 1.4, 17, 2.3, 7.7, 2.5, .9, 8, 3, 4.5, 7, 9.5, 10]))
LIKELY = {'pysolar/constants.py': 'C02 C03', 'pysolar/solartime.py': 'C17 C16 C18 C02', 'pysolar/rest.py': 'C34 C28 C29 C10', 'pysolar/util.py': 'C25 C26 C20 C21 C10', 'pysolar/radiation.py': 'C22 C10', 'pysolar/elevation.py': 'C23 C10',
          'pysolar/solar.py': 'C02 C19 C15 C27 C07 C08 C04 C03 C10', 'pysolar/simulate.py': 'C24 C10', 'pysolar/numeric.py': 'C10 C12 C11 C32', 'pysolar/tzinfo_check.py': 'C31 C06', 'util/get_delta_t': 'C30', 'pysolar/__init__.py': 'C32 C12'}


def checks(job):
    m, which, allc = job
    apply(m)
    out = tempfile.mkdtemp(prefix='mutout_')
    hits, odd = [], []
    try:
        for p in which:
            try:
                x = subprocess.run([os.path.join(V, 'check'), p], cwd=V, env=dict(os.environ, PYSOLAR_REPO=copy(), MC_JOBS='1', MC_OUT=out), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append([p, 'timeout'])
                continue
            if x.returncode == 1 and 'VIOLATION property=%s ' % p in x.stdout:
                hits.append(p)
                if not allc:
                    break
            elif x.returncode:
                odd.append([p, x.returncode])
    finally:
        apply(m, True)
        shutil.rmtree(out, ignore_errors=True)
    return dict(m, hits=hits, odd=odd)


if __name__ == '__main__':
    mode = sys.argv[1]
    if mode == 'list':
        from collections import Counter
        ms = [m for f in FILES for m in mutants(f)]
        print(len(ms), Counter(m['file'] for m in ms), Counter(m['what'] for m in ms))
    elif mode == 'tests':
        ms = [json.loads(l) for l in open(sys.argv[3])] if len(sys.argv) > 3 else [m for f in FILES for m in mutants(f)]
        random.Random(1).shuffle(ms)
        with ProcessPoolExecutor(int(os.environ.get('J', 8))) as ex, open(sys.argv[2], 'w') as o:
            for m, ok in ex.map(tests, ms, chunksize=4):
                if ok:
                    o.write(json.dumps(m) + '\n')
                    o.flush()
    elif mode == 'checks':
        ms = [json.loads(l) for l in open(sys.argv[2])]
        done = {json.loads(l)['id'] for l in open(sys.argv[3])} if os.path.exists(sys.argv[3]) else set()
        ms = [m for m in ms if m['id'] not in done]
        only = sys.argv[4].split(',') if len(sys.argv) > 4 and sys.argv[4] != '--all' else None
        jobs = []
        for m in ms:
            first = m.get('likely') or LIKELY[m['file']].split()
            order = only or first + ([] if os.environ.get('STAGE') == '1' else [p for p in sorted(COST, key=COST.get) if p not in first])
            jobs.append((m, order, '--all' in sys.argv))
        with ProcessPoolExecutor(int(os.environ.get('J', 8))) as ex, open(sys.argv[3], 'a') as o:
            for r in ex.map(checks, jobs):
                o.write(json.dumps(r) + '\n')
                o.flush()
