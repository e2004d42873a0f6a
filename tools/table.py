#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.

Run from /verif: python3 tools/table.py   (rewrites both files)
"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []

def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None,
         technique="", note="", level="model_checking", na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, observe=observe or [], state=state or [],
                  technique=technique, note=note, level=level, na=na))

exec(open(os.path.join(HERE, "properties_table.py")).read())

def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    done = set(open(os.path.join(HERE, "claimed.txt")).read().split())
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "verif", "enable": "no hook is compiled into /repo: the checks use its exported API only; C02 rewrites a copy of the sources through go build -overlay", "source_commits": []},
           "checks": [], "not_applicable": [],
           "notes": "Every check: bash run.sh <ID>; replay a violation with bash run.sh --replay <file>. See DESIGN.md."}
    for p in P:
        if p["id"] in done:
            man["checks"].append({
                "property": p["id"],
                "quick_cmd": "bash run.sh %s" % p["id"],
                "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check under construction in this session; not claimed yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
