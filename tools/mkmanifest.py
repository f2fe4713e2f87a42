"""Writes MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NOTES = {}
LEVEL = {}
if os.path.exists(f"{V}/tools/levels.json"):
    d = json.load(open(f"{V}/tools/levels.json"))
    NOTES, LEVEL = d["notes"], d["levels"]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"python3 check.py {p} --thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "contract-based deductive verification of the real source (pyvc, SMT), bounded run-time contract check for the rest",
            "level": LEVEL.get(p, "other"),
            "level_note": NOTES.get(p, "bounded"),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo; commits there are repairs of defects only (known_findings.txt).",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
