import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks_conf import CONF
NOTES = {}
try:
    from checks_conf import LEVEL_NOTES as NOTES
except ImportError:
    pass
checks = []
for p, c in CONF.items():
    if c.get("na"):
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": c.get("technique", "contracts on the real functions; run-time contract checking as bounded stand-in"),
        "level": c["level"],
        "level_note": c.get("note", "Bounded: the contract of the property evaluated on the real code over generated inputs; nothing proved yet."),
    })
na = [{"property": "C21", "reason": "Quantifies over schedules of parallel worker processes; contract-based deductive verification of sequential functions has no notion of schedule, and the workers are threads of joblib (Parallel(prefer=\"threads\")), whose interleavings no contract stated here could speak of."}]
na += [{"property": p, "reason": c["na"]} for p, c in CONF.items() if c.get("na")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. known_findings.txt lists the repaired defects, and one finding of C04 which is not repaired. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
