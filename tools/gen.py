#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (run after editing them)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), check=None, level="model_checking", tech="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, state=state,
                  observe=observe, check=check, level=level, tech=tech, note=note, na=na))
TECH = "bounded explicit-state exploration of a deck-building transition system; every state translated by the real code and compared with an independent reference model"
TRUST = "Bounded: every deck of the stated space and no other. Trusts the reference model in lib/ref.py, the output readers in lib/aster.py, lib/systus.py, lib/nas.py and, for MED files, the MED library reading back what was written."
exec(open(os.path.join(V, "tools", "propdefs.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        d["anchors"]["observe_at"] = list(p["observe"]) or ["files written to the output directory, exit status"]
        d["anchors"]["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3-vt lib/build.py", checks=[], not_applicable=[],
         hooks=dict(guard="VEGA_VERIF_NONE", enable="no hooks in /repo: the checks compile /repo's sources, unchanged, with the driver of /verif/driver", source_commits=[]))
for p in P:
    if p["check"]:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3-vt checks/%s.py --tier quick" % p["check"],
                                thorough_cmd="python3-vt checks/%s.py --tier thorough" % p["check"],
                                technique=p["tech"] or TECH, level=p["level"], level_note=p["note"] or TRUST))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid:", len(P), "properties")
except (ImportError, OSError) as e:
    print("not validated:", e)
