"""Runner shared by all checks: enumerates finite spaces completely, executes the real library in every
state, compares with the reference model, keeps the books and writes the evidence file.

A check module (mc/checks/cNN.py) defines
    PROP       the property id
    spaces(tier) -> [Space, ...]     simplest space first
A Space has a finite list of JSON-able cases (= states of the closed system: clock, place, atmosphere,
backend, call shape, operation history, schedule ...).  check_many(cases) drives the real code through
every case and returns Outcome(transitions, validated, failures).
"""
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYSOLAR_REPO", "/repo")
OUT = os.environ.get("MC_OUT", VERIF)  # where evidence/ and replays/ go
CHUNK_SECONDS = int(os.environ.get("MC_CHUNK_SECONDS", "240"))
sys.dont_write_bytecode = True


def use_repo():
    """the library under test is always imported from /repo's working tree"""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import pysolar
    assert os.path.realpath(pysolar.__file__).startswith(os.path.realpath(REPO) + os.sep), pysolar.__file__
    return pysolar


class Fail:
    """one broken case; known = key of the recorded deviation this case shows exactly, or None"""
    __slots__ = ("case", "msg", "known")

    def __init__(self, case, msg, known=None):
        self.case, self.msg, self.known = case, msg, known


class Outcome:
    __slots__ = ("transitions", "validated", "fails", "extra")

    def __init__(self, transitions=0, validated=0, fails=None, extra=None):
        self.transitions, self.validated = transitions, validated
        self.fails = fails if fails is not None else []
        self.extra = extra or {}

    def call(self, n=1):
        self.transitions += n

    def ok(self, n=1):
        self.validated += n

    def fail(self, case, msg, known=None):
        self.fails.append(Fail(case, msg, known))


class Space:
    """name: how it is called in evidence; cases: list; check_many: see above;
    pool: False runs it in the parent process (spaces that fork or exec themselves)"""

    def __init__(self, name, cases, check_many, chunk=200, pool=True, note="", describe=None, uniform=None):
        self.name, self.cases, self.check_many = name, cases, check_many
        self.chunk, self.pool, self.note = chunk, pool, note
        self.describe = describe


class ChunkTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise ChunkTimeout()


_SPACES = {}


def _run_chunk(args):
    name, lo, hi = args
    sp = _SPACES[name]
    cases = sp.cases[lo:hi]
    out = Outcome()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CHUNK_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out = sp.check_many(cases)
            except ChunkTimeout:
                signal.alarm(CHUNK_SECONDS)
                # find the case that does not finish
                for c in cases:
                    signal.alarm(max(20, CHUNK_SECONDS // 8))
                    try:
                        o = sp.check_many([c])
                        out.transitions += o.transitions
                        out.validated += o.validated
                        out.fails += o.fails
                    except ChunkTimeout:
                        out.fail(c, "no result within the time limit (does not terminate)")
                        break
    except (Exception, SystemExit):
        # a result the harness cannot even interpret: find the case, it breaks the property's interface
        out = Outcome()
        for c in cases:
            try:
                o = sp.check_many([c])
                out.transitions += o.transitions
                out.validated += o.validated
                out.fails += o.fails
            except MemoryError:
                return lo, hi, None, traceback.format_exc()
            except (Exception, SystemExit, ChunkTimeout):
                out.fail(c, "not evaluable: " + " / ".join(traceback.format_exc().strip().splitlines()[-3:]))
                break
        else:
            if not out.fails:
                return lo, hi, None, "only fails in a batch: " + traceback.format_exc()
    finally:
        signal.alarm(0)
    return lo, hi, (out.transitions, out.validated, [(f.case, f.msg, f.known) for f in out.fails[:2000]],
                    len(out.fails), out.extra), None


def _worker(tasks, results):
    """serves chunk numbers from one pipe, answers on the other"""
    rd, wr = os.fdopen(tasks, "rb"), os.fdopen(results, "wb")
    while True:
        try:
            item = pickle.load(rd)
        except EOFError:
            return
        res = _run_chunk(item)
        try:
            data = pickle.dumps(res)
        except Exception:
            data = pickle.dumps((res[0], res[1], None, "result not picklable: " + traceback.format_exc()))
        wr.write(data)
        wr.flush()


class _Worker:
    """a forked process with two pipes of its own: nothing is shared between workers, so that one which is killed cannot block the others"""

    def __init__(self, others):
        a, b = os.pipe()
        c, d = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                for o in others:
                    os.close(o.tasks)
                    os.close(o.results.fileno())
                _worker(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.tasks, self.results = b, os.fdopen(c, "rb")
        self.item = None

    def give(self, item):
        self.item, self.since = item, time.time()
        data = pickle.dumps(item)
        while data:
            data = data[os.write(self.tasks, data):]

    def end(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(self.tasks)
        self.results.close()
        return os.waitpid(self.pid, 0)[1]


def _parallel(work, n):
    """the results of all chunks, in order"""
    workers, todo, tries, ready, at = [], list(enumerate(work))[::-1], {}, {}, 0
    try:
        while at < len(work):
            if at in ready:
                yield ready.pop(at)
                at += 1
                continue
            while len(workers) < min(n, len(todo) + len(workers)):
                workers.append(_Worker(workers))
            for w in workers:
                if w.item is None and todo:
                    i, item = todo.pop()
                    w.index = i
                    try:
                        w.give(item)
                    except OSError:
                        pass            # it died: seen below
            busy = [w for w in workers if w.item is not None]
            got = select.select([w.results for w in busy], [], [], 5)[0]
            for w in busy:
                if w.results in got:
                    try:
                        ready[w.index] = pickle.load(w.results)
                        w.item = None
                        continue
                    except (EOFError, pickle.UnpicklingError):
                        how = "ends the process"
                elif time.time() - w.since > 2 * CHUNK_SECONDS + 30:
                    how = "cannot be ended by the time limit"
                else:
                    continue
                status = w.end()
                workers.remove(w)
                i, (name, lo, hi) = w.index, w.item
                tries[i] = tries.get(i, 0) + 1
                if tries[i] == 1 and how == "ends the process":
                    todo.append((i, w.item))        # once more: it may have been ended from outside
                    continue
                ready[i] = (lo, hi, (0, 0, [(_SPACES[name].cases[lo], "one of %d cases from this one on %s (status %d)" % (hi - lo, how, status), None)], 1, {}), None)
    finally:
        for w in workers:
            w.end()


def known_entries(prop):
    """{key: text} of the recorded, unrepaired findings of a property"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    parts = line.split(None, 3)
                    kv = dict(p.split("=", 1) for p in parts[1:3])
                    if kv.get("property") == prop:
                        res[kv["key"]] = parts[3]
    return res


def load(prop):
    return importlib.import_module("mc.checks." + prop.lower())


def jobs():
    return int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1)


def run(prop, tier, seed):
    t0 = time.time()
    warnings.simplefilter("ignore")
    mod = load(prop)
    spaces = mod.spaces(tier)
    known = known_entries(prop)
    seen_known, violations, nviol = {}, [], 0
    total = dict(states=0, transitions=0, validated=0)
    per_space, samples, errors = [], [], []
    for sp in spaces:
        sp.cases = list(sp.cases)
        _SPACES[sp.name] = sp
    for sp in spaces:
        st = time.time()
        n = len(sp.cases)
        distinct = len({hash(repr(c)) for c in sp.cases})
        work = [(sp.name, lo, min(n, lo + sp.chunk)) for lo in range(0, n, sp.chunk)]
        tr = va = done = 0
        extra = {}
        pool = None
        if sp.pool and len(work) > 1 and jobs() > 1:
            pool = results = _parallel(work, min(jobs(), len(work)))
        else:
            results = map(_run_chunk, work)
        stop = False
        try:
            for lo, hi, res, err in results:
                if err:
                    errors.append((sp.name, err))
                    stop = True
                    break
                t, v, fails, nf, ex = res
                tr += t
                va += v
                done += hi - lo
                for k, x in ex.items():
                    if isinstance(x, (set, list)):
                        extra.setdefault(k, set()).update(map(repr, x))
                    elif k.startswith("max"):
                        extra[k] = max(extra.get(k, x), x)
                    else:
                        extra[k] = extra.get(k, 0) + x
                for case, msg, kk in fails:
                    if kk is not None and kk in known:
                        seen_known.setdefault(kk, []).append((sp.name, case, msg))
                    else:
                        nviol += 1
                        violations.append((sp.name, case, msg))
                if violations:
                    stop = True
                    break
        finally:
            if pool is not None:
                pool.close()
        total["states"] += distinct if done == n else min(distinct, done)
        total["transitions"] += tr
        total["validated"] += va
        for i in sorted({0, n // 2, n - 1} if n else ()):
            c = sp.cases[i]
            samples.append({"space": sp.name, "case": sp.describe(c) if sp.describe else c})
        rec = dict(space=sp.name, cases=n, distinct_states=distinct, explored=done, transitions=tr,
                   executions_compared=va, seconds=round(time.time() - st, 2))
        if sp.note:
            rec["note"] = sp.note
        for k, x in extra.items():
            rec[k] = sorted(x)[:40] if isinstance(x, set) else x
            if isinstance(x, set):
                rec[k + "_count"] = len(x)
        per_space.append(rec)
        if stop:
            break
    wall = time.time() - t0
    complete = not errors and not violations
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=total["states"], transitions=total["transitions"],
                            traces_validated_against_impl=total["validated"], samples=samples[:24],
                            exhaustive=complete, spaces=per_space,
                            known_findings_observed={k: len(v) for k, v in sorted(seen_known.items())},
                            explanation=getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip())),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) or
              ["inputs outside the enumerated domains are not covered",
               "CPython 3.12 and numpy as installed; the reference model in mc/ref is trusted"],
              wall_s=round(wall, 3), violations=nviol)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    path = os.path.join(OUT, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(path + ".tmp", path)
    for k in sorted(seen_known):
        sname, case, msg = seen_known[k][0]
        print("KNOWN-FINDING: property=%s %s: %s (%d cases, first: %s %s)" %
              (prop, k, known[k], len(seen_known[k]), json.dumps(case, default=repr)[:160], msg[:160]))
    for r in per_space:
        print("%s %-28s states=%d transitions=%d compared=%d %.1fs" %
              (prop, r["space"], r["distinct_states"], r["transitions"], r["executions_compared"], r["seconds"]))
    if violations:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        sname, case, msg = violations[0]
        rp = os.path.join(OUT, "replays", "%s-%s.json" % (prop, sname.replace(" ", "_")))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, space=sname, tier=tier, case=case, message=msg,
                           how="python -m mc.replay " + rp), f, indent=1, default=repr)
        for sname, case, msg in violations[:5]:
            print("  %s %s: %s" % (sname, json.dumps(case, default=repr)[:200], msg[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        for sname, err in errors:
            print("ERROR in %s/%s\n%s" % (prop, sname, err))
        return 2
    print("%s held on %d states, %d transitions, %d executions compared (%.1fs)" %
          (prop, total["states"], total["transitions"], total["validated"], wall))
    return 0
