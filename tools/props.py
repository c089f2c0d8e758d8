#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, level="model_checking", note="", state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, state=state, observe=observe, na=na))
exec(open(os.path.join(R, "tools", "proplist.py")).read())
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")
M = dict(version=1, setup_cmd="bash bin/setup", checks=[], hooks=dict(guard="none", enable="no hooks: the checks observe documents, return values and injected I/O only", source_commits=[]), not_applicable=[], notes="TLA+ / TLC. Every check: bin/check <id>; VERIF_TIER selects the bounds; replay with bin/check <id> --replay <file>.")
for p in P:
    if p["na"]: M["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    elif not os.path.exists(os.path.join(R, "checks", p["id"] + ".ts")): M["not_applicable"].append(dict(property=p["id"], reason="check under construction"))
    else:
        M["checks"].append(dict(property=p["id"], quick_cmd="bin/check " + p["id"], thorough_cmd="VERIF_TIER=thorough bin/check " + p["id"], evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(M, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(M["checks"]), "claimed,", len(M["not_applicable"]), "not claimed")
