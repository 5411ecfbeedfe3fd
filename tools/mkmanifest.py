#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that check.py registers and the notes below"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; recorded answers of the real code validated against it (trace validation)"
NOTE = {}
NA = {}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
have = set(re.findall(r'"(C\d\d)"', " ".join(re.findall(r"^@check\((.*)\)", open(os.path.join(H, "check.py")).read(), re.M))))
DEF = "Bounded model checking of the specification and trace validation of the rebuilt library: the property held for every recorded answer (worst cases of a guided search over all planners plus random ones). Inputs between the explored ones are not covered by proof; trusts TLC, the number module Num.java and the tolerances stated in the specification."
def lazy(n):
    try: return json.load(open(os.path.join(H, "tools", n)))
    except OSError: return {}
NOTE = lazy("notes.json"); NA = lazy("not_applicable.json")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": NOTE.get(p["id"], {}).get("technique", TECH), "level": "model_checking",
                 "level_note": NOTE.get(p["id"], {}).get("note", DEF)} for p in props if p["id"] in have],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in have],
     "notes": "No hooks in /repo are needed: every check compiles /repo's sources with its own flags. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")
