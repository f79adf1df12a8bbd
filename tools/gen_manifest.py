"""Writes MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for p in ids:
    if p not in PROPS or PROPS[p].get("off"):
        continue
    d = PROPS[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "evidence_file": f"evidence/{p}.json",
                   "technique": "deterministic simulation with fault injection: " + d.get("tech", "seeded search over schedules and faults"),
                   "level": "exploration",
                   "level_note": d.get("note", "") + (" " if d.get("note") else "") + "Sampled schedules and faults, not exhaustive; sequentially consistent memory; "
                   "trusts the simulated libzmq/POSIX layers (see DESIGN.md)."})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in ids if p not in PROPS or PROPS[p].get("off")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles FairMQ from /repo's working tree (VERIF_REPO overrides) into /verif/build together with the simulator and "
              "searches seeded schedules and faults; replay a reported violation with: python3 check.py <property> --replay <file>. "
              "No hooks in /repo: the seams are pthread, libc, libzmq and the compiler's memory-access instrumentation."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
