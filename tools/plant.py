"""Make and try planted bugs: plant.py [make|try] [IDs]

make: writes seeded/<id>/ from tools/plants/*.py and confirms each (applies,
      tests pass, demo 0 without and nonzero with it).
try:  runs the property's quick check (or --all checks) against each in a scratch copy.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def specs():
    out = []
    for f in sorted(glob.glob(os.path.join(V, 'tools/plants/*.py'))):
        s = importlib.util.spec_from_file_location('p', f)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out += m.BUGS
    ids = [b['id'] for b in out]
    assert len(ids) == len(set(ids)), 'duplicate id'
    return out


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


ENV = {'TZ': 'UTC', 'PYTHONHASHSEED': '0', 'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1', 'PYTHONDONTWRITEBYTECODE': '1'}


def make(b):
    d = os.path.join(V, 'seeded', b['id'])
    t = tempfile.mkdtemp(prefix='plant_')
    try:
        c = os.path.join(t, 'r')
        shutil.copytree('/repo', c, symlinks=True)
        for f, old, new in b['edits']:
            p = os.path.join(c, f)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            if crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1: return b['id'], 'edit matches %d times: %r' % (s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff', '--binary'], cwd=c, capture_output=True).stdout
        # removed lines must be original ones
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run in the root of a pysolar tree: exit 0 when the property holds there\n'
            'here=$(cd "$(dirname "$0")" && pwd)\n'
            'exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 %s "$here/demo.py"\n' % PY)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # original lines only
        minelines = set()
        cur = None
        for l in sh(['git', 'diff', '-U0', '08c462d', 'HEAD', '--', 'pysolar', 'util'], '/repo').stdout.split('\n'):
            if l.startswith('+++'): cur = l[6:].strip()
            elif l.startswith('+'): minelines.add((cur, l[1:].rstrip('\r')))
        rem = []
        for l in diff.decode().split('\n'):
            if l.startswith('+++'): cur = l[6:].strip()
            elif l.startswith('-') and not l.startswith('---'):
                rem.append((cur, l[1:].rstrip('\r')))
        if not rem: return b['id'], 'changes no original line (only adds)'
        bad = [r for r in rem if r in minelines and r[1].strip()]
        if bad: return b['id'], 'touches my lines %s' % bad
        x = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], c, ENV)
        tail = x.stdout.strip().split('\n')[-1]
        if '90 passed' not in tail: return b['id'], 'TESTS: ' + tail + x.stdout[-600:]
        x = sh([os.path.join(d, 'demo.sh')], c)
        if x.returncode == 0: return b['id'], 'demo passes with the bug ' + x.stdout
        msg = (x.stderr or x.stdout).strip().split('\n')[-1]
        y = sh([os.path.join(d, 'demo.sh')], '/repo')
        if y.returncode != 0: return b['id'], 'demo fails on clean: ' + y.stderr[-500:]
        return b['id'], 'ok: ' + msg
    finally:
        shutil.rmtree(t)


def trial(b, which):
    t = tempfile.mkdtemp(prefix='plant_')
    try:
        c = os.path.join(t, 'r')
        shutil.copytree('/repo', c, symlinks=True)
        a = sh(['git', 'apply', os.path.join(V, 'seeded', b['id'], 'patch.diff')], c)
        assert a.returncode == 0, a.stderr
        res = []
        for p in which or [b['property']]:
            x = sh([os.path.join(V, 'check'), p], V, {'PYSOLAR_REPO': c, 'MC_JOBS': '2', 'MC_OUT': t})
            hit = x.returncode == 1 and 'VIOLATION property=%s ' % p in x.stdout
            res.append((p, x.returncode, hit, [l for l in x.stdout.split('\n') if l.startswith('VIOLATION')][:1]))
        return b['id'], res
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    mode = sys.argv[1]
    allc = '--all' in sys.argv
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    bs = [b for b in specs() if not ids and ('--new' not in sys.argv or not os.path.exists(os.path.join(V, 'seeded', b['id']))) or b['id'] in ids or b['property'] in ids]
    if mode == 'make':
        with ThreadPoolExecutor(7) as ex:
            for i, r in ex.map(make, bs):
                if not r.startswith('ok'): shutil.rmtree(os.path.join(V, 'seeded', i), ignore_errors=True)
                print(i, r, flush=True)
    else:
        which = ['C%02d' % i for i in range(1, 100) if os.path.exists(os.path.join(V, 'mc/checks/c%02d.py' % i))] if allc else None
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(lambda b: trial(b, which), bs):
                if allc:
                    print(i, 'caught by', [x[0] for x in r if x[2]], 'odd', [x[:2] for x in r if x[1] not in (0, 1)], flush=True)
                else:
                    print(i, r, flush=True)
                    rec = os.path.join(V, 'tools', 'caught.json')
                    old = json.load(open(rec)) if os.path.exists(rec) else {}
                    old[i] = [x[0] for x in r if x[2]]
                    json.dump(dict(sorted(old.items())), open(rec, 'w'), indent=0)
