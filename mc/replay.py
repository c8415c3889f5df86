"""python -m mc.replay replays/X.json  re-executes the one recorded case, without the explorer"""
import json
import sys
import warnings


def detuple(x):
    return x


def main():
    from mc import core
    rec = json.load(open(sys.argv[1]))
    mod = core.load(rec["property"])
    warnings.simplefilter("ignore")
    for sp in mod.spaces(rec["tier"]):
        if sp.name == rec["space"]:
            # cases are JSON-able, but may hold tuples: find the enumerated original
            want = json.dumps(rec["case"], default=repr)
            case = next((c for c in sp.cases if json.dumps(c, default=repr) == want), rec["case"])
            out = sp.check_many([case])
            for f in out.fails:
                print("FAIL", f.msg, "(known: %s)" % f.known if f.known else "")
            if not out.fails:
                print("the case holds now")
            return 1 if out.fails else 0
    print("no such space")
    return 2


if __name__ == "__main__":
    sys.exit(main())
