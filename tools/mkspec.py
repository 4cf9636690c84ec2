#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below.  Run from /verif: python3 tools/mkspec.py"""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"; FE = "fault_enumeration"; EX = "exploration"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, level=MC, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, level=level, note=note, na=na, state=state))

NB = "Exhaustive only inside the stated bounds; trusts the reference model in mc/ (written from the documentation) and the gcc build of the tools. "

exec(open(os.path.join(VERIF, "tools", "proplist.py"), encoding="utf-8").read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
        if p["state"]:
            o["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m mc.build opt", "checks": [], "not_applicable": [],
     "hooks": {"guard": "WLA_LINE_COMMENTS (CMake option, default ON)",
               "enable": "on by default; cmake -DWLA_LINE_COMMENTS=OFF gives the original strict -ansi -pedantic-errors build. It only lets the build accept // comments; the checks compile /repo themselves and do not use it",
               "source_commits": ["74c9f32"]},
     "notes": "The tools are checked as they are: no hooks or instrumentation in the sources. One driver, mc/check.py; one module per property in mc/props/."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 -m mc.check %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 -m mc.check %s --tier thorough" % p["id"],
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print("%d properties, %d claimed" % (len(P), len(m["checks"])))
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("schemas ok")
except ImportError:
    pass
