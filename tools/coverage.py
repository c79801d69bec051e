#!/usr/bin/env python3
"""Prints section 4's table of DESIGN.md from evidence/*.json (as the last runs wrote them); -w puts it there."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| | scenarios | executions | states | s | bound completed | families |", "|---|---|---|---|---|---|---|"]
for n in range(1, 25):
    p = "C%02d" % n
    e = json.load(open(V + "/evidence/" + p + ".json"))
    c = e["coverage"]
    f = {}
    for k, v in c["scenarios_per_family"].items():
        f[re.sub(r"^type\d+$", "types", k)] = f.get(re.sub(r"^type\d+$", "types", k), 0) + v
    cap = c["capped_explorations"]
    rows.append("| %s | %d | %d | %d | %d | %s | %s |" % (p, c["scenarios"], c["transitions"], c["states"], round(e["wall_s"]), "capped %d" % cap if cap else "yes", ", ".join("%s %d" % (k, f[k]) for k in sorted(f))))
if "-w" in sys.argv:
    s = open(V + "/DESIGN.md").read()
    i = s.index(rows[0].split(" scen")[0] + " scen")
    s = s[:i] + "\n".join(rows) + s[s.index("\n\n", i):]
    open(V + "/DESIGN.md", "w").write(s)
else:
    print("\n".join(rows))
