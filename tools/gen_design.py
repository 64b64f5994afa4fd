"""DESIGN.md = tools/design_head.md + a section per property (from props/) + tools/design_tail.md"""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
from design_how import HOW

out = [open(os.path.join(H, "tools/design_head.md")).read()]
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(H, "props", i.lower() + ".py")):
        continue
    m = importlib.import_module("props." + i.lower())
    cost = ""
    ev = os.path.join(H, "tools", "costs.json")
    if os.path.exists(ev):
        cost = json.load(open(ev)).get(i, "")
    out.append("### %s. %s\n\n" % (i, p["title"]))
    out.append(HOW[i] + "\n\n")
    out.append("* encoded: %s\n" % "; ".join(m.ENCODED))
    out.append("* bounds: %s\n" % m.BOUNDS)
    if m.ASSUMPTIONS:
        out.append("* assumptions and stand-ins: %s\n" % "; ".join(m.ASSUMPTIONS))
    if cost:
        out.append("* cost of the quick check: %s\n" % cost)
    out.append("\n")
tail = open(os.path.join(H, "tools/design_tail.md")).read()
rows = ["", "", "| seed | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(H, "tools/seed_results.json"))) if os.path.exists(os.path.join(H, "tools/seed_results.json")) else {}
sd = os.path.join(H, "seeded")
for s in sorted(os.listdir(sd)):
    me = json.load(open(os.path.join(sd, s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, me["property"], me["needs"].replace("|", "/"), res.get(s, "")))
out.append(tail.replace("SEEDTABLE", "\n".join(rows) + "\n"))
open(os.path.join(H, "DESIGN.md"), "w").write("".join(out))
