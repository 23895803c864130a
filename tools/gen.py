"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
from props import PROPS
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, state=None, observe=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": quant}, "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": ["pydatastructs/" + f for f in files],
                     "mechanism": [{"name": n, "where": "pydatastructs/" + w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": "pydatastructs/" + w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, technique, note))


exec(open(os.path.join(VERIF, "tools", "table.py")).read())

assert len({d["id"] for d, _, _ in P}) == len(P)
with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        fh.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "none", "enable": "no hooks: every check observes the public API of an unmodified copy of the working tree", "source_commits": []},
       "checks": [], "not_applicable": []}
for d, tech, note in P:
    if d["id"] in PROPS:
        man["checks"].append({
            "property": d["id"],
            "quick_cmd": "bash check.sh %s quick" % d["id"],
            "thorough_cmd": "bash check.sh %s thorough" % d["id"],
            "evidence_file": "evidence/%s.json" % d["id"],
            "technique": tech or "TLA+ specification checked with TLC; TLC-enumerated and seeded histories replayed on the real code; recorded traces validated by TLC",
            "level": "model_checking",
            "level_note": note or "Exhaustive over the specification's histories within small constants; the binding to the code is sampled beyond them (seeded histories)."})
    else:
        man["not_applicable"].append({"property": d["id"], "reason": "check not built yet"})
json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
