"""reach.py [Cnn ...]: which of the conditions of triggers.py each check reaches.  The functions of a scratch copy report, once per process, every condition on their arguments (or on history, backend, thread)
that some call of theirs met; prints the conditions that no check meets, then those met by one check only.  Results in /tmp/reach/Cnn."""
import collections, glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import triggers
PRE = '''
def _reach(name, conds):
    import functools, inspect, os, sys
    from . import numeric
    D = os.environ.get('REACH') or '/tmp/reach/none'
    f = globals()[name]
    s = inspect.signature(f)
    left = [(k, eval('lambda v, calls, a, k, numeric: bool(%s)' % e), []) for k, e in conds]
    @functools.wraps(f)
    def g(*a, **k):
        if left and not sys._getframe(1).f_globals.get('__name__', '').startswith('pysolar'):
            try:
                b = s.bind(*a, **k); b.apply_defaults(); v = b.arguments
            except TypeError:
                return f(*a, **k)
            for t in left[:]:
                try: hit = t[1](v, t[2], a, k, numeric)
                except Exception: hit = False
                if len(t[2]) > 400: del t[2][:200]
                if hit:
                    try: left.remove(t)
                    except ValueError: pass
                    try: open(os.path.join(D, __name__ + '.' + name + '|' + t[0].replace('/', '_')), 'a').close()
                    except OSError: pass
        return f(*a, **k)
    globals()[name] = g
'''
props = sys.argv[1:] or ['C%02d' % i for i in range(1, 43)]
C = '/tmp/reach/repo'
os.makedirs('/tmp/reach', exist_ok=True)
shutil.rmtree(C, ignore_errors=True)
shutil.copytree('/repo', C)
ms = collections.defaultdict(lambda: collections.defaultdict(list))
for f, name, k, e in triggers.conditions():
    ms[f][name].append((k, e))
ALL = set()
for f, d in ms.items():
    src = open(os.path.join(C, f), newline='').read()
    end = '\r\n' if '\r\n' in src else '\n'
    text = PRE + ''.join('_reach(%r, %r)\n' % (n, cs) for n, cs in d.items())
    open(os.path.join(C, f), 'a', newline='').write(text.replace('\n', end))
    for n, cs in d.items():
        ALL.update('pysolar.%s.%s|%s' % (f.split('/')[1][:-3], n, k.replace('/', '_')) for k, e in cs)
for p in props:
    d = '/tmp/reach/' + p
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        x = subprocess.run([os.path.join(V, 'check'), p], cwd=V, env=dict(os.environ, PYSOLAR_REPO=C, REACH=d, MC_OUT='/tmp/reach/out'), capture_output=True, text=True, timeout=1500)
        print(p, x.returncode, len(os.listdir(d)), flush=True)
    except subprocess.TimeoutExpired:
        print(p, 'timeout', len(os.listdir(d)), flush=True)
met = collections.defaultdict(list)
for d in sorted(glob.glob('/tmp/reach/C[0-9][0-9]')):
    for k in os.listdir(d):
        met[k].append(os.path.basename(d))
with open('/tmp/reach/none.txt', 'w') as o:
    o.write('\n'.join(sorted(ALL - set(met))) + '\n')
with open('/tmp/reach/few.txt', 'w') as o:
    o.write('\n'.join('%s: %s' % (k, ' '.join(v)) for k, v in sorted(met.items()) if len(v) <= 2) + '\n')
print(len(ALL), 'conditions', len(met), 'met')
