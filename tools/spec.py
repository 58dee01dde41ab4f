#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.

Run `python3 tools/spec.py` in /verif after editing; it rewrites both files.
`claimed` tells whether a check decides the property today; `na` gives the
reason when static analysis does not reach it.
"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=(), observe=(), level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na, state=state, observe=observe, level=level))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids)), "duplicate ids"
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=list(p["observe"]), hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if p["technique"]:
            checks.append(dict(property=p["id"], quick_cmd="./check.sh %s" % p["id"], thorough_cmd="./check.sh %s" % p["id"],
                               technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            assert p["na"], p["id"]
            na.append(dict(property=p["id"], reason=p["na"]))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="Static analysis only: one Go analyzer (analyzer/), type-checked syntax + SSA of /repo/ecore on every run. Thorough = quick: the analyses are exhaustive over the source at both tiers.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not applicable")
main()
