"""Write properties.jsonl and MANIFEST.json from the catalogue."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from catalogue import PROPS  # noqa: E402

root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [
                {"name": a, "where": b} for a, b in p["mechanism"]],
                "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import pbt.core, tensap'",
    "checks": [{
        "property": p["pid"],
        "quick_cmd": "./check.sh " + p["pid"],
        "thorough_cmd": "./check.sh %s --tier thorough" % p["pid"],
        "evidence_file": "evidence/%s.json" % p["pid"],
        "technique": "property-based testing: generated inputs and histories "
                     "against a reference model, with shrinking",
        "level": "exploration", "level_note": p["note"]} for p in PROPS],
    "not_applicable": [],
    "notes": "Every check imports tensap from /repo's working tree; nothing "
             "needs to be built. See DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for p in PROPS:
    assert os.path.exists(os.path.join(root, "props", p["pid"].lower()
                                       + ".py")), p["pid"]
    assert p["statement"].count(". ") <= 2, p["pid"]
    for g in p["files"]:
        assert os.path.exists("/repo/" + g), g
print(len(PROPS), "properties")
