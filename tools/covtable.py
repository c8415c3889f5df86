"""Rewrites the tables of DESIGN.md: coverage from evidence/, planted bugs from seeded/ and tools/caught.json, thorough runs from tools/thorough.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def put(s, mark, lines):
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    return s[:s.index(a) + len(a)] + "\n" + "\n".join(lines) + "\n" + s[s.index(b):]


s = open(os.path.join(V, "DESIGN.md")).read()
th = {}
f = os.path.join(V, "tools", "thorough.txt")
if os.path.exists(f):
    for l in open(f):
        m = re.match(r"(C\d\d) rc=(\d+) (\d+)s .*held on (\d+) states, (\d+) transitions, (\d+) exec", l)
        if m:
            th[m[1]] = m.groups()[2:]
rows = ["| check | q states | q transitions | q compared | q seconds | t states | t transitions | t compared | t seconds |", "|---|---|---|---|---|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    d = json.load(open(p))
    c = d["coverage"]
    t = th.get(d["property"])
    rows.append("| %s | %d | %d | %d | %.0f | %s |" % (d["property"], c["states"], c["transitions"], c["traces_validated_against_impl"], d["wall_s"], " | ".join([t[1], t[2], t[3], t[0]] if t else [""] * 4)))
s = put(s, "coverage", rows)
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), ", ".join(caught.get(i, [])) or "not caught"))
s = put(s, "seeded", rows)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
