#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run after editing: python3 tools/props.py"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state or [], observe=observe or [], claim=claim, na=na))
exec(open(os.path.join(HERE, "tools", "table.py")).read())
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks, na = [], []
for p in P:
    if p["claim"]:
        checks.append(dict(property=p["id"], quick_cmd=f"bin/check {p['id']}",
            thorough_cmd=f"VERIF_TIER=thorough bin/check {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="exploration", level_note=p["claim"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"]))
m = dict(version=1, setup_cmd="bin/build.sh",
    hooks=dict(guard="none", enable="No hook was added to /repo: the seams are the libc symbols the process links against (futex, clock, file I/O, getrandom, threads) and compiler-inserted basic-block callbacks, applied when the checks build the library.", source_commits=[]),
    checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
