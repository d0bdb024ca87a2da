#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/properties_doc.py and properties_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from properties_doc import P
from properties_table import TABLE
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": [x.split(" ")[0] for x in p["files"]], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in TABLE:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
