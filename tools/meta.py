#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and props.map from one table."""
import json, os, sys
import subprocess
HOOKS = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "--grep=^check hook:"], text=True).split()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, bin, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, bin=bin, technique=technique, note=note, rec=dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
with open(os.path.join(V, "props.map"), "w") as f:
    for p in P:
        if p["bin"]:
            f.write(f"{p['id']} {p['bin']}\n")
na = [dict(property=p["id"], reason=p["note"]) for p in P if not p["bin"]]
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="--cfg eucalypt_check", enable="run.sh and setup.sh build with RUSTFLAGS=--cfg eucalypt_check", source_commits=HOOKS),
         checks=[dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']}",
                      thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p['id']}",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"],
                      level="exploration", level_note=p["note"]) for p in P if p["bin"]],
         not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(m["checks"]), "checks")
