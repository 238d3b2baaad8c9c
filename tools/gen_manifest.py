#!/usr/bin/env python3
# Writes MANIFEST.json from tools/config.py and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import config
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/run_check.py %s quick" % i,
            "thorough_cmd": "python3 tools/run_check.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over thread schedules, "
                         "simulated time and faults of the real code",
            "level": "exploration",
            "level_note": "Seeded sampling of schedules and faults (quick: %d runs, thorough: %d). Real code: %s. %s "
                          "Trusted: the simulator, the harness oracle, the SDK interface stubs." % (
                              c["runs"], c["runs"] * config.THOROUGH, ", ".join(c["real"]), c.get("note", ""))})
    else:
        na.append({"property": i, "reason": config.NOT_APPLICABLE.get(i, "TODO: no check built yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the compiler's instrumentation callbacks, the pthread/libc symbols and the "
              "SDK interfaces. Replay: python3 tools/run_check.py <id> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
