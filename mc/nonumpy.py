"""Runs the library in an interpreter where numpy cannot be imported (child process of check C32).  Input on stdin: {"mode":..., "jobs": [[function, arguments], ...],
"words": [...]}; output: {"values": [...], "words": [...], "notes": [...]}"""
import datetime
import json
import sys
import warnings


def block(mode):
    if mode == "none in sys.modules":
        sys.modules["numpy"] = None
    elif mode == "finder":
        class Finder:
            def find_spec(self, name, path=None, target=None):
                if name == "numpy" or name.startswith("numpy."):
                    raise ImportError("numpy is not installed here")
        sys.meta_path.insert(0, Finder())
    elif mode.startswith("path:"):
        sys.path.insert(0, mode[5:])


def leaf(x):
    if isinstance(x, dict):
        return ["dict"] + [[k, leaf(x[k])] for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return ["seq"] + [leaf(y) for y in x]
    if isinstance(x, datetime.datetime):
        return ["dt", x.replace(tzinfo=None).isoformat(), str(x.utcoffset())]
    if isinstance(x, (int, float)):
        return repr(float(x))
    if hasattr(x, "tolist"):         # numpy scalars and arrays, in the process that has numpy
        return leaf(x.tolist())
    return ["other", type(x).__name__, str(x)]


def outcome(f, *a, **k):
    try:
        return ["ok", leaf(f(*a, **k))]
    except Exception as e:  # noqa: BLE001
        return ["raise", type(e).__name__]


def values(jobs):
    from . import api, functions
    res = []
    for name, args in jobs:
        res.append(outcome(api.fn(name), *functions.arguments(name, args)))
    return res


def words(ws, probes):
    """each word is a history over N (ask for numpy), M (ask for math), every probe is evaluated after every step"""
    import pysolar
    res = []
    for w in ws:
        trace = []
        for op in w:
            trace.append([op] + outcome(pysolar.use_numpy if op == "N" else pysolar.use_math)[:2])
            trace.append(values(probes))
        res.append(trace)
    return res


def main():
    job = json.load(sys.stdin)
    block(job["mode"])
    warnings.simplefilter("ignore")
    notes = []
    try:
        import numpy
        notes.append("numpy was imported: %r" % numpy)
    except ImportError:
        pass
    from . import core
    core.use_repo()
    out = dict(values=values(job["jobs"]), words=words(job.get("words", []), job.get("probes", [])))
    if any(n == "numpy" and m is not None for n, m in sys.modules.items()):
        notes.append("numpy is in sys.modules")
    out["notes"] = notes
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
