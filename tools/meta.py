#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py; a property is claimed when harness/<id>.py exists."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES
TECH = "symbolic execution of the real Python 2 source under Jython, assertions decided by z3 (bit-vectors), counterexamples replayed"
checks, lines = [], []
for p in PROPS:
    if not os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py")): continue
    note = p["note"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}))
    assert len(p["title"]) <= 80, p["id"]
    assert 1 <= p["statement"].count(". ") + 1 <= 3, p["id"]
    for f in p["files"]: assert os.path.exists("/repo/" + f), f
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "technique": TECH, "level": "model_checking", "level_note": note})
claimed = set(c["property"] for c in checks)
for x in NOT_APPLICABLE:
    lines.append(json.dumps(x["line"]))
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
    "not_applicable": [{"property": x["line"]["id"], "reason": x["reason"]} for x in NOT_APPLICABLE], "notes": NOTES},
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in lines: jsonschema.validate(json.loads(l), ps)
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid: %d checks, %d not applicable" % (len(checks), len(NOT_APPLICABLE)))
except ImportError:
    print("not validated (no jsonschema)")
