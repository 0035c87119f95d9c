#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the tables below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V)
import check
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
}
NOTE = ("Seeded search, not proof: a clean run says no violation was found in the schedules, faults and programs of this run. "
        "Assumes sequentially consistent execution between scheduling points (unordered accesses are reported as races), gcc -O1, ENABLE_THREADS=ON, NTHREADS=4; "
        "trusts the simulator's pthread, clock, heap and file models.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PLAN and os.path.exists(V + "/harness/%s.cpp" % check.PLAN[i]):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection (seeded schedule search, replayable)", "level": "exploration", "level_note": NOTE})
    else: na.append({"property": i, "reason": NA.get(i, "harness not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none (link-time and compiler-instrumentation seams only)", "enable": "check.py compiles /repo's sources with g++ -fsanitize=thread and links them against /verif/sim, which supplies the instrumentation callbacks, pthreads, clocks, heap and file calls; no source hook is needed", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
