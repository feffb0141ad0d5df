"""Writes MANIFEST.json (run by hand when the set of checks changes)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C21": "promptness and freedom from deadlock are liveness and real-time statements over schedules; contracts "
           "and deductive verification of single functions cannot express or decide them",
}
NOTES = json.load(open(os.path.join(HERE, "levels.json")))
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif p in NOTES:
        n = NOTES[p]
        proved = n.get("level") == "proof"
        checks.append({
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "technique": n.get("technique") or (
                "contracts on the real functions, verification conditions discharged by z3/cvc5" if proved
                else "executable contracts, bounded"),
            "level": n.get("level", "exploration"),
            "level_note": n["note"],
        })
    else:
        na.append({"property": p, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 selftest.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
