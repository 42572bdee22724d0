#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from table.py."""
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
from table import NOT_APPLICABLE, PROPS   # noqa: E402

ROOT = Path(__file__).resolve().parent.parent


def line(p):
    assert len(p["title"]) <= 80, p["title"]
    files = list(dict.fromkeys(p["files"]))
    for f in files:
        assert (Path("/repo") / f).exists(), f
    return json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}})


props = sorted(PROPS + [n for n in NOT_APPLICABLE], key=lambda p: p["id"])
(ROOT / "properties.jsonl").write_text("\n".join(line(p) for p in props) + "\n")
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"].strip()} for p in sorted(PROPS, key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "Static analysis only: check.py parses the sources of /repo on every run and never executes them. "
             "selftest/run.py applies the rules to broken and equivalent variants of the sources.",
}, indent=1) + "\n")
print(len(props), "properties,", len(PROPS), "checks")
