#!/usr/bin/env python3
"""Renders properties.jsonl, MANIFEST.json and harness/checks.json's property list from docs/props*.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import props1
P = props1.P
for m in ("props2", "props3", "props4"):
    if os.path.exists(os.path.join(HERE, m + ".py")):
        __import__(m)
checks = json.load(open(os.path.join(ROOT, "harness", "checks.json")))
NOTE = ("Generated-input search against an explicit oracle; holds on everything generated, no proof. Trusts the oracle in harness/%s, "
        "g++/AddressSanitizer and the platform's IEEE-754 arithmetic; numeric comparisons use error budgets measured over long runs, with headroom. ")
NA = getattr(props1, "NA", {})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for k, p in P.items():
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
        if p["state"]: a["state"] = [dict(name=p["state"], meaning="the state the property is about", where=p["files"][0])]
        if p["observe"]: a["observe_at"] = [p["observe"]]
        assert len(p["title"]) <= 80, (k, len(p["title"]))
        f.write(json.dumps(dict(id=k, title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
man = dict(version=1, setup_cmd="python3 -c 'import os; os.makedirs(\"evidence\", exist_ok=True); os.makedirs(\"replays\", exist_ok=True)'",
  hooks=dict(guard="none", enable="no hooks: the checks compile /repo/src unchanged", source_commits=[]),
  checks=[dict(property=k, quick_cmd="./run.py check %s --tier quick" % k, thorough_cmd="./run.py check %s --tier thorough" % k,
               technique=P[k]["tech"], level="exploration", level_note=NOTE % checks[k]["src"] + P[k]["note"]) for k in P if k in checks and k not in NA],
  not_applicable=[dict(property=k, reason=r) for k, r in NA.items()],
  notes="Every check rebuilds from /repo/src in a scratch directory, writes evidence/<id>.json and, on a violation, a shrunk replay under replays/ (re-run with ./run.py replay <file> -v).")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
