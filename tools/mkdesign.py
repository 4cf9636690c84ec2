"""Makes DESIGN.md from its hand-written parts and from what the checks say about themselves."""
import ast, glob, importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, root); os.chdir(root)
from tools.design_notes import NOTES
props = [json.loads(l) for l in open("properties.jsonl")]
out = open("tools/design_head.md").read()
for p in props:
    m = importlib.import_module("mc.props." + p["id"].lower()); d = NOTES.get(p["id"], {})
    doc = " ".join((m.__doc__ or "").split()); doc = doc.split(": ", 1)[-1] if doc.startswith(p["id"]) else doc
    out += "### %s  %s\n\n" % (p["id"], p["title"])
    out += "%s\n\n" % p["statement"]
    out += "*Enumerated and compared:* %s\n\n" % (d.get("how") or doc[:1].upper() + doc[1:])
    out += "*Oracle:* %s\n\n" % d["oracle"]
    out += "*Bounds, quick:* %s.\n*Thorough:* %s.\n\n" % (m.BOUNDS["quick"].rstrip("."), m.BOUNDS["thorough"].rstrip("."))
    a = getattr(m, "ASSUMPTIONS", []) or []
    if a: out += "*Assumptions:* %s.\n\n" % "; ".join(x.rstrip(".") for x in a)
    if d.get("not"): out += "*Not judged:* %s\n\n" % d["not"]
    out += "*Why tests can't settle it:* %s\n\n" % d["why"]
    if d.get("cost"): out += "*Cost:* %s\n\n" % d["cost"]
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s |" % (f.split("/")[1], m["property"], m["needs"]))
nf = sum(l.startswith("finding:") for l in open("known_findings.txt"))
out += open("tools/design_tail.md").read() % dict(table="\n".join(rows), findings=nf, fixed=sum(l.startswith("fixed:") for l in open("known_findings.txt")))
open("DESIGN.md", "w").write(out)
