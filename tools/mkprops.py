#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None,
         technique=None, level="model_checking", note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], state=state or [], hook=hook,
                  technique=technique, level=level, note=note))

exec(open(os.path.join(V, "tools", "props_data.py"), encoding="utf-8").read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=p["hook"]))
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    checks = []
    na = list(NOT_APPLICABLE)
    for p in P:
        if p["id"] in CLAIMED:
            checks.append(dict(property=p["id"],
                quick_cmd="python3 tools/check.py %s --tier quick" % p["id"],
                thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=p["technique"], level=p["level"], level_note=p["note"]))
        elif p["id"] not in [n["property"] for n in na]:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
             notes="All checks: TLA+ specifications under spec/, decided by TLC; see DESIGN.md.")
    if HOOKS: m["hooks"] = HOOKS
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
