#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=observe or [], state=state or []))


exec(open(os.path.join(ROOT, "tools", "props_cfb.py")).read())
for extra in ("props_file.py", "props_types.py", "props_model.py", "props_media.py"):
    p = os.path.join(ROOT, "tools", extra)
    if os.path.exists(p):
        exec(open(p).read())

TRUST = ("Exploration by generated search: a violation that needs an input outside the generated domain is not seen. "
         "Trusts the reference model or parser in vlib, Hypothesis and CPython. ")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in PROPS:
        if not os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({"property": p["id"],
                       "quick_cmd": "python3-vt run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "exploration",
                       "level_note": TRUST + p["note"]})
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "run.py ID --replay FILE re-executes a replay file; VERIF_SEED selects the seed. No hooks in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
