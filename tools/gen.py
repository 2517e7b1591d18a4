#!/usr/bin/env python3
"""Developer tool: writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/src")
from checks import CHECKS
L = "libipt/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, na=None,
         tech="", note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook),
                  _na=na, _tech=tech, _note=note))


exec(open(H + "/tools/props_data.py").read())

with open(H + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="No hooks: the checks compile /repo's sources as they are and "
                    "interpose at link time (ld --wrap).", source_commits=[]),
         checks=[], not_applicable=[],
         notes="Every check is ./run.py <ID> <tier>; it rebuilds the harness and the library sources from "
               "/repo's working tree (VERIF_REPO overrides) with a content-addressed object cache in .cache.")
for p in P:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append(dict(property=i, quick_cmd="./run.py %s quick" % i,
                                thorough_cmd="./run.py %s thorough" % i,
                                technique=p["_tech"], level=CHECKS[i]["level"], level_note=p["_note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=p["_na"] or "No check is registered for it yet."))
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    for l in open(H + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok", len(P), "properties", len(m["checks"]), "checks")
except ImportError:
    print("no jsonschema")
