#!/usr/bin/env python3
"""Source of MANIFEST.json: checks are those registered in checks.py."""
import json, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import checks
V = Path(__file__).resolve().parent.parent
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
NOTE = {
    "default": "Every explored history of public calls is executed by the library and must be a behaviour of the TLA+ specification, values included (doubles with running error bounds). Histories are random but seeded, within the sizes stated in DESIGN.md; ",
}
def note(p):
    return NOTE["default"] + checks.NOTES.get(p, "no exhaustiveness is claimed beyond them.")
pend = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 tools/run.py %s quick" % p, "thorough_cmd": "python3 tools/run.py %s thorough" % p,
                 "technique": checks.TECHNIQUE.get(p, "TLA+ specification; TLC trace validation of recorded histories"),
                 "level": "model_checking", "level_note": note(p)} for p in props if p in checks.CHECKS],
     "not_applicable": [{"property": p, "reason": checks.NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in checks.CHECKS],
     "notes": "TLA+ with TLC. See DESIGN.md. Genuine defects found: KNOWN_FINDINGS.txt."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
