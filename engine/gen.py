"""Generate properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    rows = []
    for p in list(PROPS.values()) + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    for r in sorted(rows, key=lambda r: r["id"]):
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 engine/build.py",
    "checks": [{"property": p["id"], "quick_cmd": "python3 engine/run.py %s" % p["id"], "thorough_cmd": "python3 engine/run.py %s --thorough" % p["id"], "technique": p["tech"], "level": "other", "level_note": p["note"]} for p in sorted(PROPS.values(), key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "Static analysis of auburn's MIR; see DESIGN.md. No hooks in /repo.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
