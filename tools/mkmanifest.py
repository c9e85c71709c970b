#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of claimed checks below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
exec(open(V + "/tools/claims.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": CLAIMED[i][0], "level": "exploration", "level_note": CLAIMED[i][1]})
    else: na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hooks were needed in /repo: the checks compile its working tree with -fsanitize=thread and link their own implementations of the memory-access, OpenMP, pthread, allocator, clock, randomness and file entry points.", "source_commits": []},
     "notes": NOTES}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
