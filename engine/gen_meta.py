#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props.py and checks/registry."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from props import P, EXTRA_NA
def entry(p):
    return dict(id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                     observe_at=p["observe"], hook_needed=None))
def implemented(p):
    return p["claimed"] and os.path.exists(os.path.join(H, "checks", p["id"].lower() + ".py"))
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(entry(p), ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if implemented(p):
            checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check --thorough {p['id']}",
                technique=p["technique"], level=p["level"], level_note=p["note"] or DEFAULT_NOTE))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=NOTES), open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed;", [x["property"] for x in na])
DEFAULT_NOTE = ("Static: decided on the MIR of the current tree by an abstract interpreter (no execution, no solver). "
    "Assumes the models of std and external crates in engine/ and the generated code tables (absent here, replaced by empty stubs) do not matter.")
NOTES = "All checks share one front end (rustc_private driver dumping MIR of every workspace crate, rebuilt from /repo's working tree on every run). See DESIGN.md."
if __name__ == "__main__": main()
