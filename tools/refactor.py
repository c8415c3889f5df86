"""Behaviour-preserving rewrites: refactor.py [A B ...] [-- Cnn ...]: applies tools/refactors/X.py to a scratch copy, runs the repository's tests and all checks; every check has to stay quiet."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
args = sys.argv[1:]
props = args[args.index('--') + 1:] if '--' in args else ['C%02d' % i for i in range(1, 43)]
names = args[:args.index('--')] if '--' in args else args
names = names or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(V, 'tools/refactors/*.py')))
for n in names:
    s = importlib.util.spec_from_file_location('r', os.path.join(V, 'tools/refactors', n + '.py'))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    t = tempfile.mkdtemp(prefix='refactor_')
    try:
        c = os.path.join(t, 'r')
        shutil.copytree('/repo', c, symlinks=True)
        for f, old, new in m.EDITS:
            p = os.path.join(c, f)
            src = open(p, newline='').read()
            e = '\r\n' if '\r\n' in src else '\n'
            old, new = old.replace('\n', e), new.replace('\n', e)
            assert src.count(old) == 1, (f, old, src.count(old))
            open(p, 'w', newline='').write(src.replace(old, new))
        for f, text in m.APPEND.items():
            p = os.path.join(c, f)
            src = open(p, newline='').read()
            e = '\r\n' if '\r\n' in src else '\n'
            open(p, 'w', newline='').write(src + e + text.replace('\n', e))
            # numeric chooses its backend at the end of the file
            if f.endswith('numeric.py'):
                open(p, 'a', newline='').write(e + 'try:' + e + '    use_numpy()' + e + 'except ImportError:' + e + '    pass' + e)
        env = dict(os.environ, TZ='UTC', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONDONTWRITEBYTECODE='1')
        x = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=c, env=env, capture_output=True, text=True)
        print(n, 'tests:', x.stdout.strip().split('\n')[-1], flush=True)
        if x.returncode:
            print(x.stdout[-800:])
            continue
        for p in props:
            x = subprocess.run([os.path.join(V, 'check'), p], cwd=V, env=dict(os.environ, PYSOLAR_REPO=c, MC_OUT=os.path.join(t, 'out')), capture_output=True, text=True)
            if x.returncode:
                print(n, p, 'ALARM', x.returncode, x.stdout[-1500:] + x.stderr[-300:], flush=True)
        print(n, 'done', flush=True)
    finally:
        shutil.rmtree(t)
