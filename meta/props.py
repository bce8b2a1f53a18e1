#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json:  python3 meta/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, level=level))


exec(open(os.path.join(ROOT, "meta", "list.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "vp", "checks")) if f.startswith("c")}
man = dict(version=1, setup_cmd="bash setup.sh",
           hooks=dict(guard="none", enable="no hooks: the checks observe /repo through its public interfaces only", source_commits=[]),
           checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"])
                   for p in P if p["id"] in have],
           not_applicable=[dict(property=p["id"], reason="no check built yet") for p in P if p["id"] not in have],
           notes="TLA+ specifications in spec/, checked with TLC; see DESIGN.md.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
# ---- DESIGN.md
ns = {}
exec(open(os.path.join(ROOT, "meta", "plan.py")).read(), ns)
lines = []
for p in P:
    lines.append(f"### {p['id']} {p['title']}\n\n{ns['PLAN'].get(p['id'], '').strip()}\n")
sd = os.path.join(ROOT, "seeded")
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    c = ns["CAUGHT"].get(s, m["property"])
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {c} |")
t = open(os.path.join(ROOT, "meta", "design.tmpl")).read()
t = t.replace("@@PROPS@@", "\n".join(lines)).replace("@@SEEDS@@", "\n".join(rows)).replace("@@NOTES@@", ns["NOTES"])
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
