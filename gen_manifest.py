#!/usr/bin/env python3
"""MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import props
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[],
         notes="One abstract interpreter over the MIR of the current tree (driver/ + engine/), entry points in ghost/. See DESIGN.md.")
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                technique=P.get("technique", props.TECH), level=P["level"], level_note=P.get("note", props.NOTE)))
    else:
        m["not_applicable"].append(dict(property=i, reason=props.NA.get(i, "no check yet")))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
