#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist in mc/."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = "".join(open(f).read() for f in glob.glob(os.path.join(here, "mc", "*.go")))
have = set(re.findall(r'checks\["(C\d\d)"\]\s*=', src))
notes = {}
p = os.path.join(here, "tools", "notes.json")
if os.path.exists(p):
    notes = json.load(open(p))
TECH = "explicit-state model checking of the real code: exhaustive enumeration of bounded feeds, goroutine schedules and map orders under a controlled scheduler"
NOTE = "Every feed of the stated bounded families is pushed through the unmodified processor code and judged by an independent oracle; for selected feeds every schedule and map order with a bounded number of deviations is run as well. Trusted: the gtfsparser/gtfswriter modules, the Go toolchain. Nothing is said about values outside the enumerated alphabets."
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the scheduler shims are added to a copy of the sources through a build overlay (go build -overlay) generated from the current tree on every run."}
for q in props:
    i = q["id"]
    if i in have:
        n = notes.get(i, {})
        m["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": n.get("technique", TECH), "level": "model_checking",
                            "level_note": n.get("level_note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check has been built for this property yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
