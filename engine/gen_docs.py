#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in sorted(PROPS):
        p = PROPS[i]
        assert len(p["title"]) <= 80, i
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=p["hook"]))) + "\n")
m = dict(version=1, setup_cmd="python3 engine/setup.py",
         checks=[dict(property=i, quick_cmd="python3 engine/run.py %s --tier quick" % i,
                      thorough_cmd="python3 engine/run.py %s --tier thorough" % i,
                      technique=p["technique"], level="exploration", level_note=p["note"].strip())
                 for i, p in sorted(PROPS.items()) if i not in NOT_APPLICABLE],
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())], notes=NOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
