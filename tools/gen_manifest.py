#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/props.py, properties.jsonl and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS  # noqa: E402
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
DEFAULT_NOTE = ("Seeded search, not exhaustive: assurance is for the executions explored. Trusts the simulator's disk, allocator and "
                "clock models, the reference model of the world, g++ and AddressSanitizer.")
m = {"version": 1,
     "setup_cmd": "python3 bin/check.py --selfcheck",
     "hooks": {"guard": "none", "enable": "no hook was needed: libc seams are replaced at link time (--wrap), the sources of /repo are compiled unchanged", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check builds its world executable from /repo's working tree (cached by a hash of the sources) and runs seeded simulations; "
              "'bin/check.py --replay FILE' replays a replay file. See DESIGN.md."}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": PROPS[i].get("technique", "deterministic simulation with fault injection (seeded search, reference model)"),
                            "level": "exploration", "level_note": PROPS[i].get("note", DEFAULT_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "the world deciding it is not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
