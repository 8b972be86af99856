#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/lambdapic/"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[S + f for f in files],
                                mechanism=[dict(name=a, where=S + b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                                observe_at=list(observe), hook_needed=None)), tech, note))


exec(open(os.path.join(HERE, "tools", "props_list.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0, '.'); import vlib.build\"",
           checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}",
                        thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                        technique=t, level="exploration", level_note=n) for p, t, n in P
                   if os.path.exists(os.path.join(HERE, "props", p["id"] + ".py"))],
           not_applicable=[])
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
ids = {p["id"] for p, _, _ in P}
import glob
for f in glob.glob(os.path.join(HERE, "props", "[A-Z][0-9]*.py")):
    if os.path.basename(f)[:-3] not in ids:
        print("no properties entry for", f)
for p, _, _ in P:
    for f in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + f):
            print("missing", p["id"], f)
    for m in p["anchors"]["mechanism"]:
        if not os.path.exists("/repo/" + m["where"].split(":")[0]):
            print("missing", p["id"], m["where"])
