#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []
ALL = "all argument values and all entry states of the receiver"


def prop(id, title, statement, text, why, files, mechanism, technique, note, over=("inputs",), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=files, mechanism=mechanism, technique=technique, note=note, na=na))


AI = "abstract interpretation of the SSA form (value numbering, linear inequalities, array segments), obligations per outcome"
BASE = "Sound for all inputs under: real arithmetic for floats (no NaN, infinity, rounding), no integer overflow, non-nil pointers, non-aliasing arguments, documented library behaviour."

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mechanism"]))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=p["id"], quick_cmd="bash run.sh " + p["id"], thorough_cmd="bash run.sh " + p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="other",
                      level_note=p["note"]) for p in P if not p["na"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
         notes="One analyser (fincheck/) loads /repo's current source, type-checks it, builds SSA and decides every property from it; nothing of /repo is executed. No hooks are needed in /repo.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties")
