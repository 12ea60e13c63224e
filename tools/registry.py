#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, importlib.util, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech="", note="", hook=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook), _t=tech, _n=note))
def N(id, reason): NA.append(dict(property=id, reason=reason))
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(os.path.join(here, "props"))):
    if f.endswith(".py"):
        exec(open(os.path.join(here, "props", f)).read())
ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for p in PROPS:
        o.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
na = {n["property"] for n in NA}
man = dict(version=1, setup_cmd="bash tools/build.sh && bash tools/pybuild.sh",
    checks=[dict(property=p["id"], quick_cmd=f"bash tools/check.sh {p['id']} quick",
                 thorough_cmd=f"bash tools/check.sh {p['id']} thorough",
                 technique=p["_t"], level="exploration", level_note=p["_n"]) for p in PROPS if p["id"] not in na],
    not_applicable=NA)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
