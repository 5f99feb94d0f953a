#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json"""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parents[1]
sys.path[:0] = [str(V), str(V / "tools")]
from checks_config import CHECKS
from props import PROPS

with open(V / "properties.jsonl", "w") as f:
    for p in PROPS:
        doc = dict(id=p["id"], title=p["title"], statement=p["statement"],
                   quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                   anchors=dict(files=p["files"],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                                observe_at=p["observe"], hook_needed=None))
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(doc) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in CHECKS and not p["na"]:
        checks.append(dict(
            property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
            thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
            technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "the check is not built yet"))
doc = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
           notes="Every check builds its own program from /repo/lib (g++-14), runs a seeded, "
                 "sharded search with it, and shrinks and replays what fails. No hooks in /repo.")
(V / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(PROPS), "properties,", len(checks), "checks")
