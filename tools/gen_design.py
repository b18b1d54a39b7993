"""DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl and checks/cNN.py) + tools/design_tail.md + catch table."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tools", "design_notes.py")).read(), ns)
NOTES, COST, MISSED = ns["NOTES"], ns["COST"], ns["MISSED"]
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    t = ast.parse(open(os.path.join(V, "checks", i.lower() + ".py")).read())
    d = {}
    hs = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and n.args.args and n.args.args[0].arg == "c" and ast.get_docstring(n):
            hs.append("`%s`: %s" % (n.name, ast.get_docstring(n).splitlines()[0]))
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["- Encoded: " + ", ".join("`%s`" % m["name"] for m in p["anchors"]["mechanism"]) + " and everything they call in mlpaper."]
    out += ["- Deciding: " + NOTES[i]]
    if hs:
        out += ["- Further harnesses: " + "; ".join(hs) + "."]
    out += ["- Bounds: " + d["BOUNDS"] + "."]
    if d["ASSUMPTIONS"]:
        out += ["- Assumes: " + "; ".join(d["ASSUMPTIONS"]) + "."]
    out += ["- Out of reach of the tests because: " + p["why_tests_cant"]]
    out += ["- Cost (quick, 8 cores): about %s s." % COST[i], ""]
out += [open(os.path.join(V, "tools", "design_tail.md")).read().rstrip(), "", "## Planted changes and what catches them", "",
        "Every change passes the stable tests; each was run against its own property's check (tools/seed_run.sh). \"missed at first\" marks those that led to a stronger check.", "",
        "| change | caught by | breaks | |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), "missed at first" if s in MISSED else ""))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
