"""write properties.jsonl and MANIFEST.json from specs.py"""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from specs import SPECS, NOT_APPLICABLE  # noqa


def main():
    ids = sorted(SPECS)
    na = {d["property"] for d in NOT_APPLICABLE}
    with open(VERIF + "/properties.jsonl", "w") as f:
        for pid in ids:
            f.write(json.dumps(SPECS[pid]["prop"]) + "\n")
    checks = []
    for pid in ids:
        if pid in na:
            continue
        assert os.path.exists("%s/props/%s.py" % (VERIF, pid)), pid
        checks.append(
            {
                "property": pid,
                "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % pid,
                "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": SPECS[pid]["technique"],
                "level": "exploration",
                "level_note": SPECS[pid]["note"],
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup_check.py",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "All checks are generated-input searches (vendored Hypothesis) driven by run.py; see DESIGN.md.",
    }
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for pid in ids:
        jsonschema.validate(SPECS[pid]["prop"], json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("ok", ids)


main()
